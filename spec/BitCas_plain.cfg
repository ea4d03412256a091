SPECIFICATION Spec
CONSTANTS Thread = {t1, t2, t3}
 Bit = {0, 1}
 MaxOps = 5
 Plain = TRUE
INVARIANTS NoUpdateLost ChangeReportedOnce SizeAtRest
CHECK_DEADLOCK FALSE
