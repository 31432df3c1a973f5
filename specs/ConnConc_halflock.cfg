SPECIFICATION Spec
CONSTANTS
 Bug = "halflock"
 MaxData = 2
CHECK_DEADLOCK FALSE
INVARIANTS OnlyMine ClosedOnce
PROPERTIES Over Released
