SPECIFICATION Spec
CONSTANTS
  N = 7
  MaxBlocks = 3
  Variant = "nobackoff"
INVARIANTS Sorted FindRight FindInGap Partition NonEmptyParts Progress Divisible
CHECK_DEADLOCK FALSE
