SPECIFICATION Spec
INVARIANT Standard
INVARIANT Own
CHECK_DEADLOCK FALSE
CONSTANTS Limit = 3
Bug = "nostrings"
