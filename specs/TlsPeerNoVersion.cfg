CONSTANTS Authorities = {"good", "evil"}
Addresses = {"a", "b"}
Skip = {"version"}
SPECIFICATION Spec
INVARIANTS OnlyVouched
CHECK_DEADLOCK FALSE
