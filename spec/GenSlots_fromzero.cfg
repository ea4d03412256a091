SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxK = 9
  RULE = "fromzero"
INVARIANT Done
CHECK_DEADLOCK FALSE
