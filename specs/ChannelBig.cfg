SPECIFICATION Spec
CONSTANTS Total = 9
 MaxChunk = 4
INVARIANTS InOrder Whole Reason
PROPERTY Served
CHECK_DEADLOCK TRUE
