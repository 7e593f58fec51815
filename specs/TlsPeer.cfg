CONSTANTS Authorities = {"good", "evil"}
Addresses = {"a", "b"}
Skip = {}
SPECIFICATION Spec
INVARIANTS OnlyVouched EveryVouched NoDataBefore
CHECK_DEADLOCK FALSE
