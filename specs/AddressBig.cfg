SPECIFICATION Spec
CONSTANTS
 Labels = {"b", "s3", "r1", "aws"}
 Mark = "s3"
 Regions = {"r1", "r2", "s3"}
 Domain = "aws"
 MaxBucket = 4
 MaxKey = 3
 Mistake = "none"
INVARIANTS Resolves Refuses
CHECK_DEADLOCK FALSE
