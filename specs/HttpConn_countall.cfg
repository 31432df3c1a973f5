SPECIFICATION Spec
CONSTANTS
 N = 2
 Kinds = {"get", "post", "big", "bad", "close", "zip"}
 Max = 5
 Chunk = 3
 Reuse = TRUE
 Lazy = FALSE
 Bug = "countall"
 Cuts = 0
CHECK_DEADLOCK FALSE
INVARIANTS InOrder OneResponseEach NeverRefused NoIdle CloseIsLast OnlyWrongRefused CodingOwn
PROPERTY AllServed
