SPECIFICATION Spec
CONSTANTS
 Elements = 4
 MaxSteps = 4
 Mistake = "none"
INVARIANTS Kept Shapes
CHECK_DEADLOCK FALSE
