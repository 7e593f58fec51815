SPECIFICATION Spec
CONSTANTS
 Q = 3
 Labels = 2
 Mistake = "none"
INVARIANTS Product Hidden
CHECK_DEADLOCK FALSE
