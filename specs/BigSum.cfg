SPECIFICATION Spec
CONSTANTS
 ItemWidth = 2
 MaxItems = 2
 Mistake = "none"
INVARIANTS Right
CHECK_DEADLOCK FALSE
