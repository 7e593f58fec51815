SPECIFICATION Spec
CONSTANTS
 ItemWidth = 2
 MaxItems = 2
 Mistake = "signed"
INVARIANTS Right
CHECK_DEADLOCK FALSE
