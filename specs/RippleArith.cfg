CONSTANT MaxW = 5
SPECIFICATION Spec
INVARIANT Prefix
CHECK_DEADLOCK FALSE
