SPECIFICATION Spec
CONSTANTS
 N = 3
 MaxBytes = 1
 Mistake = "oneIsAll"
INVARIANTS Exact Answers Balanced
CHECK_DEADLOCK FALSE
