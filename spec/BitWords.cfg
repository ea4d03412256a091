SPECIFICATION Spec
CONSTANTS W = 3
 MaxBlock = 3
 MaxOps = 3
 CountFilter = TRUE
INVARIANTS Represents Counts
CHECK_DEADLOCK FALSE
