SPECIFICATION Spec
CONSTANTS
  Mesh = {{1, 2}, {2, 3}}
  W = 2
  ATOMIC = FALSE
  ONCE = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
