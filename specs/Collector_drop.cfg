SPECIFICATION Spec
CONSTANTS
 Recorders = {1, 2}
 Names = {"a", "b"}
 Metrics = {"x", "y"}
 MaxValue = 1
 MaxRegs = 3
 Mistake = "drop"
INVARIANTS Everyone OneKeyEach Exact
CHECK_DEADLOCK FALSE
