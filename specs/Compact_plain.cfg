SPECIFICATION Spec
CONSTANTS
 N = 3
 Mistake = "plain"
INVARIANTS Exactly Hidden
CHECK_DEADLOCK FALSE
