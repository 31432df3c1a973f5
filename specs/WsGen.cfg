SPECIFICATION Spec
CONSTANTS
 N = 3
 Kinds = {"text", "binpart", "last", "ping", "close", "bad", "unmasked", "large"}
 Ops = {}
 Bug = "none"
 MaxSend = 1
 Gone = FALSE
 Lazy = TRUE
CHECK_DEADLOCK FALSE
