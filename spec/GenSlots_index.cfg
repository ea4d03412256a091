SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxK = 9
  RULE = "index"
INVARIANT Done
CHECK_DEADLOCK FALSE
