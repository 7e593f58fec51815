SPECIFICATION Spec
CONSTANT MaxN = 7
INVARIANT NoClash
INVARIANT Correct
CHECK_DEADLOCK FALSE
