SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxBytes = 4
 Mistake = "none"
INVARIANTS Exact Answers Balanced
CHECK_DEADLOCK FALSE
