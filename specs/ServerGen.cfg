CONSTANTS
 Conns = {1, 2, 3, 4, 5, 6}
 Max = 2
 Bug = "none"
 Note <- Record
INIT Init
NEXT GenNext
INVARIANTS Limit Show
CHECK_DEADLOCK FALSE
