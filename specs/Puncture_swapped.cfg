SPECIFICATION Spec
CONSTANTS
 MaxDepth = 3
 Mistake = "swapped"
 BadLevel = 2
INVARIANTS AllButOne MissingLeaf
CHECK_DEADLOCK FALSE
