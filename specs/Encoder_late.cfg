SPECIFICATION Spec
CONSTANTS
 Rows = {"a", "b", "x", "y"}
 Rejected = {"x", "y"}
 MaxSteps = 6
 Mistake = "late"
INVARIANTS Dense OneNumber OneKind RoundTrip
CHECK_DEADLOCK FALSE
