SPECIFICATION Spec
CONSTANTS
  W = 9
  H = 7
  N = 0
  Big = 60
  Axis = 1
  WholeWalk = FALSE
  KeepOld = TRUE
  AnyOrder = FALSE
  FirstLayer = TRUE
INVARIANTS Right LinksRight
CHECK_DEADLOCK FALSE
