CONSTANTS
  Threads = {1, 2, 3}
  Ops = 3
  Atomic = FALSE
SPECIFICATION Spec
INVARIANT Complete
CHECK_DEADLOCK FALSE
