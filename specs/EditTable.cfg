SPECIFICATION Spec
CONSTANTS
 Letters = {"a", "b"}
 MaxLen = 2
 Costs = {1, 2, 5}
 Mistake = "none"
INVARIANTS Distance
CHECK_DEADLOCK FALSE
