SPECIFICATION Spec
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS Before = 25567
Last = 75000
Bug = "nocentury"
