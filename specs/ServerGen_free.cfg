CONSTANTS
 Conns = {1, 2, 3, 4}
 Max = 0
 Bug = "none"
 Note <- Record
INIT Init
NEXT GenNext
INVARIANTS Limit Show
CHECK_DEADLOCK FALSE
