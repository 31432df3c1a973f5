SPECIFICATION Spec
CONSTANTS
 N = 2
 Kinds = {"text", "textpart", "binpart", "cont", "last", "ping", "close", "bad", "large"}
 Ops = {"send", "close", "leave"}
 Bug = "waitmore"
 MaxSend = 1
 Gone = TRUE
 Lazy = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Prompt NothingLost Reported Whole WholeOdd CloseLast Pongs
