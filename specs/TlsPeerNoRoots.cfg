CONSTANTS Authorities = {"good", "evil"}
Addresses = {"a", "b"}
Skip = {"roots"}
SPECIFICATION Spec
INVARIANTS EveryVouched
CHECK_DEADLOCK FALSE
