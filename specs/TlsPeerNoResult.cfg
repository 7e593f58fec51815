CONSTANTS Authorities = {"good", "evil"}
Addresses = {"a", "b"}
Skip = {"result"}
SPECIFICATION Spec
INVARIANTS OnlyVouched
CHECK_DEADLOCK FALSE
