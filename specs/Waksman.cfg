SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANT NoClash
INVARIANT Correct
CHECK_DEADLOCK FALSE
