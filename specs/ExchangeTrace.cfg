SPECIFICATION Spec
INVARIANT ResultsRight
CHECK_DEADLOCK TRUE
