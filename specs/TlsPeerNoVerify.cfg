CONSTANTS Authorities = {"good", "evil"}
Addresses = {"a", "b"}
Skip = {"verify"}
SPECIFICATION Spec
INVARIANTS OnlyVouched
CHECK_DEADLOCK FALSE
