SPECIFICATION Spec
CONSTANTS D = 2
 Hi = 2
 MaxCells = 6
 ROUND = "floor1"
INVARIANTS Complete Found
CHECK_DEADLOCK FALSE
