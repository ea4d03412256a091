SPECIFICATION Spec
CONSTANTS D = 1
 Hi = 3
 MaxCells = 4
 ROUND = "ceil"
INVARIANTS Complete Found
CHECK_DEADLOCK FALSE
