SPECIFICATION Spec
CONSTANTS Key = {1, 2, 3}
 MaxCap = 8
 MaxOps = 4
 Multi = TRUE
 Threshold = "half"
INVARIANTS Represents Counts LookupEnds LookupRight GetRight
CHECK_DEADLOCK FALSE
