SPECIFICATION Spec
CONSTANTS D = 3
 Hi = 1
 MaxCells = 8
 ROUND = "floor1"
INVARIANTS Complete Found
CHECK_DEADLOCK FALSE
