SPECIFICATION Spec
CONSTANTS
 MaxDepth = 3
 Mistake = "both"
 BadLevel = 2
INVARIANTS AllButOne MissingLeaf
CHECK_DEADLOCK FALSE
