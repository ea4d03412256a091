SPECIFICATION Spec
INVARIANTS Right LinksRight
CONSTANTS
  W = 4
  H = 3
  N = 5
  Big = 37
  P = 2
  Whole = TRUE
  DropEmpty = TRUE
CHECK_DEADLOCK FALSE
