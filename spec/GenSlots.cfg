SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxK = 9
  RULE = "shares"
INVARIANT Done
CHECK_DEADLOCK FALSE
