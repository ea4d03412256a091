SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxK = 9
  RULE = "oddpairs"
INVARIANT Done
CHECK_DEADLOCK FALSE
