SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS Nodes = {1, 2, 3, 4, 5, 6, 7, 8}
Slots = {1, 2}
Bug = "none"
