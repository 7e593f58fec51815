CONSTANTS
 N = 3
 M = 2
 G = 1
 Mistake = "order"
SPECIFICATION Spec
INVARIANTS Correct Hidden
