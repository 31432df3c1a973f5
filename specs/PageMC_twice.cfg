SPECIFICATION Spec
INVARIANT AsData
CHECK_DEADLOCK FALSE
CONSTANTS Limit = 5
Bug = "twice"
