SPECIFICATION TSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
