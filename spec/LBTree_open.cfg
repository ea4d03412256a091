SPECIFICATION Spec
CONSTANTS
  N = 5
  DEPTH = 3
  RULE = "open"
INVARIANT CoverInv
INVARIANT FlatInv
INVARIANT CollInv
CHECK_DEADLOCK FALSE
