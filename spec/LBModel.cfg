SPECIFICATION Spec
INVARIANTS Right LinksRight
CONSTANTS
  W = 3
  H = 2
  N = 4
  Big = 37
  P = 2
  Whole = TRUE
  DropEmpty = TRUE
CHECK_DEADLOCK FALSE
