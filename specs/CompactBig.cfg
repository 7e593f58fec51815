SPECIFICATION Spec
CONSTANTS
 N = 4
 Mistake = "none"
INVARIANTS Exactly Hidden
CHECK_DEADLOCK FALSE
