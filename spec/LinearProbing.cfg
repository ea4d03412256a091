SPECIFICATION Spec
CONSTANTS Key = {1, 2, 3, 4}
 MaxCap = 8
 MaxOps = 5
 Multi = FALSE
 Threshold = "half"
INVARIANTS Represents Counts LookupEnds LookupRight GetRight
CHECK_DEADLOCK FALSE
