SPECIFICATION Spec
CONSTANTS Total = 6
 MaxChunk = 3
INVARIANTS InOrder Whole Reason
PROPERTY Served
CHECK_DEADLOCK TRUE
