SPECIFICATION Spec
CONSTANTS
 Bug = "swallow"
 Clients = 3
 Troubles = 2
CHECK_DEADLOCK FALSE
INVARIANTS OnlyMine Once NoThrow
PROPERTIES Handed Released
