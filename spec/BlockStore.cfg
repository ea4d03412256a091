SPECIFICATION Spec
CONSTANTS
  N = 7
  MaxBlocks = 3
  Variant = "code"
INVARIANTS Sorted FindRight FindInGap Partition NonEmptyParts Progress Divisible
CHECK_DEADLOCK FALSE
