CONSTANTS Dim = 2  Top = 3
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
