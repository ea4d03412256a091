SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
  N = 6
  Big = 9
  Axis = 1
  WholeWalk = TRUE
  KeepOld = TRUE
  AnyOrder = FALSE
  FirstLayer = TRUE
INVARIANTS Right LinksRight
CHECK_DEADLOCK FALSE
