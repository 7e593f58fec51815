CONSTANTS
 N = 2
 M = 2
 G = 1
 Mistake = "alladd"
SPECIFICATION Spec
INVARIANTS Correct Hidden
