SPECIFICATION Spec
CONSTANTS
 MaxGates = 3
 MaxBatch = 2
 MaxOut = 2
 Mistake = "rebatch"
INVARIANTS EagerExact LazyExact Below
CHECK_DEADLOCK FALSE
