SPECIFICATION Spec
CONSTANTS
 Q = 3
 Labels = 2
 Mistake = "bareKey"
INVARIANTS Product Hidden
CHECK_DEADLOCK FALSE
