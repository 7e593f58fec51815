SPECIFICATION Spec
CONSTANTS
 BlockLen = 2
 Fill = 4
 MaxTotal = 14
 Mistake = "none"
INVARIANTS InOrder Enough
CHECK_DEADLOCK FALSE
