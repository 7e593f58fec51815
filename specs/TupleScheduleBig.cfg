SPECIFICATION Spec
CONSTANTS Requests = 11
          Ordered = TRUE
INVARIANT Agreed
PROPERTY Served
CHECK_DEADLOCK FALSE
