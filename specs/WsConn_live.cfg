SPECIFICATION Spec
CONSTANTS
 N = 2
 Kinds = {"text", "ping", "close", "bad"}
 Ops = {"send", "close", "leave"}
 Bug = "none"
 MaxSend = 1
 Gone = TRUE
 Lazy = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Prompt NothingLost Reported Whole WholeOdd CloseLast Pongs
PROPERTY Ends EndSeen
PROPERTY Ends EndSeen
