SPECIFICATION Spec
CONSTANTS
  MaxN = 40
  MaxK = 9
  RULE = "pairs"
INVARIANT Done
CHECK_DEADLOCK FALSE
