SPECIFICATION Spec
CONSTANTS
 N = 2
 Kinds = {"text", "ping", "close"}
 Ops = {"send", "close", "leave"}
 Bug = "nocheck"
 MaxSend = 1
 Gone = TRUE
 Lazy = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Prompt NothingLost Reported Whole WholeOdd CloseLast Pongs
