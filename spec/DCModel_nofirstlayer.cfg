SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 2
  N = 5
  Big = 9
  Axis = 1
  WholeWalk = TRUE
  KeepOld = TRUE
  AnyOrder = FALSE
  FirstLayer = FALSE
INVARIANTS Right LinksRight
CHECK_DEADLOCK FALSE
