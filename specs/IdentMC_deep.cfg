SPECIFICATION Spec
INVARIANT Traced
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
Steps = 2
Bug = "none"
