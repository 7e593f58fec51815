SPECIFICATION Spec
CONSTANTS
 Rows = 2
 Blocks = 2
 Sessions = 2
 MaxBatches = 3
 Mistake = "noClear"
INVARIANTS OwnCounters NotAfter OnlyThisSession Answers
CHECK_DEADLOCK FALSE
