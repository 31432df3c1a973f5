SPECIFICATION Spec
INVARIANTS SameB64 SameHash SameUrl
CHECK_DEADLOCK FALSE
CONSTANTS Bytes = {0, 37, 52, 97, 255}
Max = 6
Bug = "none"
