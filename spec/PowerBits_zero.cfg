CONSTANTS
  W = 8
  Guarded = FALSE
SPECIFICATION Spec
INVARIANTS NextPowRight LogRight PowRight IsPow2Right PopRight
CHECK_DEADLOCK FALSE
