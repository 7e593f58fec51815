SPECIFICATION Spec
CONSTANTS
 Rows = 3
 Blocks = 2
 Sessions = 2
 MaxBatches = 4
 Mistake = "none"
INVARIANTS OwnCounters NotAfter OnlyThisSession Answers
CHECK_DEADLOCK FALSE
