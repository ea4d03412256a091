SPECIFICATION Spec
CONSTANTS
  W = 6
  D = 2
  Variant = "nomask"
INVARIANTS Split ReadBack
CHECK_DEADLOCK FALSE
