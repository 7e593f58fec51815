SPECIFICATION Spec
CONSTANTS
 Elements = 4
 MaxSteps = 4
 Mistake = "order"
INVARIANTS Kept Shapes
CHECK_DEADLOCK FALSE
