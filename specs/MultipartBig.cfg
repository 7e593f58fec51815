SPECIFICATION Spec
CONSTANTS Parts = 6 Retries = 3 Guard = TRUE
INVARIANTS NoTruncation SuccessMeansThere NothingLeft AllTaken
PROPERTY Ends
CHECK_DEADLOCK FALSE
