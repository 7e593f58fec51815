SPECIFICATION Spec
CONSTANTS
 ItemWidth = 2
 MaxItems = 2
 Mistake = "narrow"
INVARIANTS Right
CHECK_DEADLOCK FALSE
