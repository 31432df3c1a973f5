SPECIFICATION Spec
CONSTANTS
 N = 3
 Kinds = {"get", "post", "big", "bad", "close", "zip"}
 Max = 5
 Chunk = 9
 Reuse = TRUE
 Lazy = TRUE
 Bug = "none"
 Cuts = 0
CHECK_DEADLOCK FALSE

