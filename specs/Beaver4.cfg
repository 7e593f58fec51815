CONSTANTS
 N = 2
 M = 4
 G = 1
 Mistake = "none"
SPECIFICATION Spec
INVARIANTS Correct Hidden
