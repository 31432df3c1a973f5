CONSTANTS
 MaxOps = 4
 Parts = 2
 Bug = "none"
INIT Init
NEXT Next
INVARIANTS Intact Border Final Honest
PROPERTY Reported
CHECK_DEADLOCK FALSE
