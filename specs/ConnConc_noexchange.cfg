SPECIFICATION Spec
CONSTANTS
 Bug = "noexchange"
 MaxData = 2
CHECK_DEADLOCK FALSE
INVARIANTS OnlyMine ClosedOnce
PROPERTIES Over Released
