SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT OnePoint
INVARIANT Length
CHECK_DEADLOCK FALSE
