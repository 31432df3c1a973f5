SPECIFICATION Spec
INVARIANTS WholeLines Told Quiet
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
Steps = 1
Bug = "none"
