SPECIFICATION Spec
CONSTANTS
 N = 2
 Kinds = {"text", "ping", "bad"}
 Ops = {}
 Bug = "getfirst"
 MaxSend = 1
 Gone = FALSE
 Lazy = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Delivered Prompt NothingLost Reported Whole WholeOdd CloseLast Pongs
