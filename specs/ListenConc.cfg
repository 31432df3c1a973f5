SPECIFICATION Spec
CONSTANTS
 Bug = "none"
 Clients = 3
 Troubles = 2
CHECK_DEADLOCK FALSE
INVARIANTS OnlyMine Once NoThrow
PROPERTIES Handed Released
