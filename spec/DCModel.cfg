SPECIFICATION Spec
CONSTANTS
  W = 3
  H = 2
  N = 4
  Big = 9
  Axis = 1
  WholeWalk = TRUE
  KeepOld = TRUE
  AnyOrder = TRUE
  FirstLayer = TRUE
INVARIANTS Right LinksRight
CHECK_DEADLOCK FALSE
