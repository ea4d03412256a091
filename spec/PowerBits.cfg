CONSTANTS
  W = 8
  Guarded = TRUE
SPECIFICATION Spec
INVARIANTS NextPowRight LogRight PowRight IsPow2Right PopRight
CHECK_DEADLOCK FALSE
