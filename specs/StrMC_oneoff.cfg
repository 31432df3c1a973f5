SPECIFICATION Spec
INVARIANTS Ends Right Whole
CHECK_DEADLOCK FALSE
CONSTANTS Bytes = {32, 49, 97}
Max = 4
Bug = "oneoff"
