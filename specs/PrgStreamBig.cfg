SPECIFICATION Spec
CONSTANTS
 BlockLen = 3
 Fill = 6
 MaxTotal = 22
 Mistake = "none"
INVARIANTS InOrder Enough
CHECK_DEADLOCK FALSE
