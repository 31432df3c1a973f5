SPECIFICATION Spec
INVARIANTS WholeLines Told Quiet
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
Steps = 2
Bug = "torn"
