SPECIFICATION Spec
CONSTANTS
 Letters = {"a", "b"}
 MaxLen = 3
 Costs = {0, 1, 2, 5}
 Mistake = "none"
INVARIANTS Distance
CHECK_DEADLOCK FALSE
