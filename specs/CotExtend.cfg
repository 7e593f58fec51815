SPECIFICATION Spec
CONSTANTS
 Bits = 2
 K = 1
 N = 3
 Rounds = 2
 Mistake = "none"
INVARIANTS Correlated KeptApart
CHECK_DEADLOCK FALSE
