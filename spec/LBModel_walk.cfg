SPECIFICATION Spec
INVARIANTS Right LinksRight
CONSTANTS
  W = 4
  H = 2
  N = 4
  Big = 99
  P = 2
  Whole = FALSE
  DropEmpty = TRUE
CHECK_DEADLOCK FALSE
