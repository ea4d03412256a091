SPECIFICATION Spec
CONSTANTS
  Thread = {t1, t2, t3}
  Key = {1, 2}
  MaxCalls = 5
INVARIANT OneWinner
INVARIANT FoundImpliesWon
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
