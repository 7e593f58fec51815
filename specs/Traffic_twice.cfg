SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxBytes = 3
 Mistake = "twice"
INVARIANTS Exact Answers Balanced
CHECK_DEADLOCK FALSE
