SPECIFICATION Spec
INVARIANTS Right LinksRight
CONSTANTS
  W = 3
  H = 2
  N = 2
  Big = 37
  P = 2
  Whole = TRUE
  DropEmpty = FALSE
CHECK_DEADLOCK FALSE
