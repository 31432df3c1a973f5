SPECIFICATION Spec
CONSTANTS
 Bug = "rawclose"
 MaxData = 2
CHECK_DEADLOCK FALSE
INVARIANTS OnlyMine ClosedOnce
PROPERTIES Over Released
