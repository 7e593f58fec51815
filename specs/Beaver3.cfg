CONSTANTS
 N = 3
 M = 2
 G = 1
 Mistake = "none"
SPECIFICATION Spec
INVARIANTS Correct Hidden
