INIT Init
NEXT Next
CONSTANTS
  Keys = {"a", "b"}
  Vals = {"x", "y"}
CONSTRAINT Small
CHECK_DEADLOCK FALSE
