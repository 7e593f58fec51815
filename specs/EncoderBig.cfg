SPECIFICATION Spec
CONSTANTS
 Rows = {"a", "b", "c", "x", "y"}
 Rejected = {"x", "y"}
 MaxSteps = 8
 Mistake = "none"
INVARIANTS Dense OneNumber OneKind RoundTrip
CHECK_DEADLOCK FALSE
