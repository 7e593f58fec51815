SPECIFICATION Spec
CONSTANTS
 MaxGates = 4
 MaxBatch = 2
 MaxOut = 2
 Mistake = "none"
INVARIANTS EagerExact LazyExact Below
CHECK_DEADLOCK FALSE
