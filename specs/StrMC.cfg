SPECIFICATION Spec
INVARIANTS Ends Right Whole
CHECK_DEADLOCK FALSE
CONSTANTS Bytes = {32, 45, 97}
Max = 4
Bug = "none"
