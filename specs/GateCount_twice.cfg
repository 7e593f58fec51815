SPECIFICATION Spec
CONSTANTS
 MaxGates = 3
 MaxBatch = 2
 MaxOut = 2
 Mistake = "twice"
INVARIANTS EagerExact LazyExact Below
CHECK_DEADLOCK FALSE
