CONSTANTS
 MaxOps = 5
 Parts = 2
 Bug = "noend"
INIT Init
NEXT Next
INVARIANTS Intact Border Final Honest
PROPERTY Reported
CHECK_DEADLOCK FALSE
