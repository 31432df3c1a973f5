SPECIFICATION Spec
CONSTANTS
 Bug = "none"
 MaxData = 2
CHECK_DEADLOCK FALSE
INVARIANTS OnlyMine ClosedOnce
PROPERTIES Over Released
