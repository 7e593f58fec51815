SPECIFICATION Spec
CONSTANTS MaxLen = 8 Chunk = 4 MaxRead = 6
INVARIANTS Window ReadRight LineRight EndRight
PROPERTY Returns
CHECK_DEADLOCK FALSE
