CONSTANTS Dim = 2  Exps = {0, 2}
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
