SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANT OnePoint
INVARIANT Length
CHECK_DEADLOCK FALSE
