SPECIFICATION Spec
CONSTANTS
 N = 3
 Mistake = "oneOrder"
INVARIANTS Exactly Hidden
CHECK_DEADLOCK FALSE
