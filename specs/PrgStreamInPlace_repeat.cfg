SPECIFICATION Spec
CONSTANTS
 BlockLen = 3
 Fill = 0
 MaxTotal = 10
 Mistake = "repeat"
INVARIANTS InOrder
CHECK_DEADLOCK FALSE
