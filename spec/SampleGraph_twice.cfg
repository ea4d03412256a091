SPECIFICATION Spec
CONSTANTS
  Mesh = {{1, 2, 3}, {2, 3, 4}}
  W = 2
  ATOMIC = TRUE
  ONCE = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
