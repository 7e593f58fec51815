SPECIFICATION Spec
CONSTANTS
 ItemWidth = 3
 MaxItems = 3
 Mistake = "none"
INVARIANTS Right
CHECK_DEADLOCK FALSE
