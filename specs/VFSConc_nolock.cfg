SPECIFICATION Spec
INVARIANTS Explained Quiet
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
Calls = 2
Names = {"a", "b"}
Bug = "nolock"
