CONSTANT MaxW = 7
SPECIFICATION Spec
INVARIANT Prefix
CHECK_DEADLOCK FALSE
