CONSTANTS Authorities = {"good", "evil"}
Addresses = {"a", "b"}
Skip = {"host"}
SPECIFICATION Spec
INVARIANTS OnlyVouched
CHECK_DEADLOCK FALSE
