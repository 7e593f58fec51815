CONSTANTS
 N = 2
 M = 2
 G = 2
 Mistake = "none"
SPECIFICATION Spec
INVARIANTS Correct Hidden
