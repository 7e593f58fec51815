SPECIFICATION Spec
CONSTANTS
 Bits = 2
 K = 1
 N = 2
 Rounds = 2
 Mistake = "oddRow"
INVARIANTS Correlated KeptApart
CHECK_DEADLOCK FALSE
