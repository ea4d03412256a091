SPECIFICATION Spec
CONSTANTS D = 1
 Hi = 7
 MaxCells = 8
 ROUND = "floor1"
INVARIANTS Complete Found
CHECK_DEADLOCK FALSE
