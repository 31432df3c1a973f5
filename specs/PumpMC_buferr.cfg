SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS Input = 5
B = 3
Expand = 4
Bug = "buferr"
