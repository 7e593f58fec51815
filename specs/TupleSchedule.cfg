SPECIFICATION Spec
CONSTANTS Requests = 6
          Ordered = TRUE
INVARIANT Agreed
PROPERTY Served
CHECK_DEADLOCK FALSE
