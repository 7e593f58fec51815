SPECIFICATION Spec
CONSTANTS N = 3
 K = 2
 Ports = {1, 2}
INVARIANTS Paired Complete
CHECK_DEADLOCK TRUE
