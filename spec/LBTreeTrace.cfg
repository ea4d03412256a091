SPECIFICATION TSpec
CONSTANTS
  N = 1
  DEPTH = 1
  RULE = "else"
INVARIANT Accepted
CHECK_DEADLOCK FALSE
