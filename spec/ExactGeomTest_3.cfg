CONSTANTS Dim = 3  Top = 1
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
