SPECIFICATION Spec
CONSTANTS
 MaxDepth = 3
 Mistake = "tail"
 BadLevel = 2
INVARIANTS AllButOne MissingLeaf
CHECK_DEADLOCK FALSE
