SPECIFICATION Spec
CONSTANTS
  N = 7
  DEPTH = 3
  RULE = "else"
INVARIANT CoverInv
INVARIANT FlatInv
INVARIANT CollInv
CHECK_DEADLOCK FALSE
