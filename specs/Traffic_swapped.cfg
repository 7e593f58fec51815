SPECIFICATION Spec
CONSTANTS
 N = 2
 MaxBytes = 3
 Mistake = "swapped"
INVARIANTS Exact Answers Balanced
CHECK_DEADLOCK FALSE
