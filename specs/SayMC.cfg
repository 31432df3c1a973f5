SPECIFICATION Spec
INVARIANTS Whole InOrder Complete
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
Lines = 2
Pieces = 3
Room = 4
Bug = "none"
