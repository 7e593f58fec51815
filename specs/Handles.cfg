CONSTANTS H = 4
 W = 4
SPECIFICATION Spec
INVARIANT NeverTouchReleased
INVARIANT CountIsHolders
CHECK_DEADLOCK FALSE
