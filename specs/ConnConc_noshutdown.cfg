SPECIFICATION Spec
CONSTANTS
 Bug = "noshutdown"
 MaxData = 2
CHECK_DEADLOCK FALSE
INVARIANTS OnlyMine ClosedOnce
PROPERTIES Over Released
