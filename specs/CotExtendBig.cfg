SPECIFICATION Spec
CONSTANTS
 Bits = 2
 K = 2
 N = 3
 Rounds = 1
 Mistake = "none"
INVARIANTS Correlated KeptApart
CHECK_DEADLOCK FALSE
