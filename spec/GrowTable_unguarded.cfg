SPECIFICATION Spec
CONSTANTS
  Thread = {t1, t2}
  NKeys = 3
  Cap0 = 4
  Block = 2
  MaxOps = 5
  MaxVersion = 2
  Guarded = FALSE
SYMMETRY Symm
INVARIANT OneWinner
INVARIANT NeverLost
INVARIANT NothingInvented
INVARIANT Contents
INVARIANT ItemsExact
INVARIANT WritersExact
INVARIANT FrozenWhileCopied
CHECK_DEADLOCK FALSE
