SPECIFICATION Spec
CONSTANTS
 MaxDepth = 4
 Mistake = "none"
 BadLevel = 0
INVARIANTS AllButOne MissingLeaf
CHECK_DEADLOCK FALSE
