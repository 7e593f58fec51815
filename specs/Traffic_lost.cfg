SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxBytes = 3
 Mistake = "lost"
INVARIANTS Exact Answers Balanced
CHECK_DEADLOCK FALSE
