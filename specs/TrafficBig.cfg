SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxBytes = 2
 Mistake = "none"
INVARIANTS Exact Answers Balanced
CHECK_DEADLOCK FALSE
