SPECIFICATION Spec
CONSTANTS
 N = 3
 Mistake = "none"
INVARIANTS Exactly Hidden
CHECK_DEADLOCK FALSE
