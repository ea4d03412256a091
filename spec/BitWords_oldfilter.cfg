SPECIFICATION Spec
CONSTANTS W = 3
 MaxBlock = 3
 MaxOps = 3
 CountFilter = FALSE
INVARIANTS Represents Counts
CHECK_DEADLOCK FALSE
