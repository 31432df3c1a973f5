SPECIFICATION Spec
CONSTANTS
 N = 3
 Kinds = {"textpart", "ping", "last"}
 Ops = {}
 Bug = "ctxreset"
 MaxSend = 1
 Gone = FALSE
 Lazy = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Prompt NothingLost Reported Whole WholeOdd CloseLast Pongs
