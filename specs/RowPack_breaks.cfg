SPECIFICATION Spec
CONSTANTS
 MaxCols = 6
 Sizes = {1, 2}
 Capacity = 2
 Mistake = "breaks"
INVARIANTS Placed Least
CHECK_DEADLOCK FALSE
