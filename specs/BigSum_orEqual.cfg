SPECIFICATION Spec
CONSTANTS
 ItemWidth = 2
 MaxItems = 2
 Mistake = "orEqual"
INVARIANTS Right
CHECK_DEADLOCK FALSE
