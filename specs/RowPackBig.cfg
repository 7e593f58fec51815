SPECIFICATION Spec
CONSTANTS
 MaxCols = 8
 Sizes = {1, 2, 3}
 Capacity = 3
 Mistake = "none"
INVARIANTS Placed Least
CHECK_DEADLOCK FALSE
