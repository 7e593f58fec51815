SPECIFICATION Spec
CONSTANTS N = 4
 K = 1
 Ports = {1, 2, 3}
INVARIANTS Paired Complete
CHECK_DEADLOCK TRUE
