SPECIFICATION Spec
CONSTANTS
 Q = 4
 Labels = 2
 Mistake = "none"
INVARIANTS Product Hidden
CHECK_DEADLOCK FALSE
