CONSTANTS
  Threads = {1, 2, 3}
  Ops = 3
  Atomic = TRUE
SPECIFICATION Spec
INVARIANT Complete
CHECK_DEADLOCK FALSE
