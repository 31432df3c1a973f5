SPECIFICATION Spec
INVARIANTS Back Agrees Tables
CHECK_DEADLOCK FALSE
CONSTANTS Bytes = {58, 97, 255}
Max = 3
Bug = "lastcolon"
