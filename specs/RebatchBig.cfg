SPECIFICATION Spec
CONSTANTS
 Elements = 5
 MaxSteps = 6
 Mistake = "none"
INVARIANTS Kept Shapes
CHECK_DEADLOCK FALSE
