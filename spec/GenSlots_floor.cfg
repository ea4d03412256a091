SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxK = 9
  RULE = "floor"
INVARIANT Done
CHECK_DEADLOCK FALSE
