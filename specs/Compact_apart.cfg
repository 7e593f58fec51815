SPECIFICATION Spec
CONSTANTS
 N = 3
 Mistake = "apart"
INVARIANTS Exactly Hidden
CHECK_DEADLOCK FALSE
