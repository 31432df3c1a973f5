SPECIFICATION Spec
INVARIANT Traced
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
Steps = 3
Bug = "fresh"
