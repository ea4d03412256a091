SPECIFICATION Spec
CONSTANTS
  W = 6
  D = 3
  Variant = "code"
INVARIANTS Split ReadBack
CHECK_DEADLOCK FALSE
