SPECIFICATION Spec
CONSTANTS
  Thread = {t1, t2, t3}
  Key = {1}
  MaxOps = 5
CHECK_DEADLOCK FALSE
PROPERTY LastWins
