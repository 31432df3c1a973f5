SPECIFICATION Spec
INVARIANTS Meaning Bounded
CHECK_DEADLOCK FALSE
CONSTANTS Chars = {123, 125, 97, 32}
Max = 7
Bug = "rescan"
