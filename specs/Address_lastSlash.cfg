SPECIFICATION Spec
CONSTANTS
 Labels = {"b", "s3", "r1", "aws"}
 Mark = "s3"
 Regions = {"r1", "r2"}
 Domain = "aws"
 MaxBucket = 3
 MaxKey = 2
 Mistake = "lastSlash"
INVARIANTS Resolves Refuses
CHECK_DEADLOCK FALSE
