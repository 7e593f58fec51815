SPECIFICATION Spec
CONSTANTS Parts = 3 Retries = 2 Guard = TRUE
INVARIANTS NoTruncation SuccessMeansThere NothingLeft AllTaken
PROPERTY Ends
CHECK_DEADLOCK FALSE
