SPECIFICATION Spec
CONSTANTS
 N = 3
 Kinds = {"textpart", "last", "ping", "close", "bad"}
 Ops = {}
 Bug = "none"
 MaxSend = 1
 Gone = FALSE
 Lazy = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Prompt NothingLost Reported Whole WholeOdd CloseLast Pongs
PROPERTY Ends Answered
