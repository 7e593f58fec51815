SPECIFICATION Spec
CONSTANTS MaxLen = 5 Chunk = 3 MaxRead = 4
INVARIANTS Window ReadRight LineRight EndRight
PROPERTY Returns
CHECK_DEADLOCK FALSE
