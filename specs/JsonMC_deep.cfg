SPECIFICATION Spec
INVARIANT Standard
INVARIANT Own
CHECK_DEADLOCK FALSE
CONSTANTS Limit = 4
Bug = "none"
