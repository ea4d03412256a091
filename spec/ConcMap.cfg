SPECIFICATION Spec
CONSTANTS
  Thread = {t1, t2, t3}
  Key = {1}
  MaxOps = 5
INVARIANT GetsAllowed
INVARIANT FinalValue
CHECK_DEADLOCK FALSE
