SPECIFICATION Spec
CONSTANTS
 Period = 3
 Skip = 3
 Horizon = 45
 Bug = "deaf"
CHECK_DEADLOCK FALSE
INVARIANTS OnlySilent Patience Pace Told
PROPERTY Ends
