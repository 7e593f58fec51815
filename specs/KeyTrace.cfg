SPECIFICATION Spec
POSTCONDITION Accepted
INVARIANT UsedOnce
CHECK_DEADLOCK FALSE
