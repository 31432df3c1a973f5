SPECIFICATION Spec
INVARIANTS Inside Same SameRfc Idem Agree
CHECK_DEADLOCK FALSE
CONSTANTS Chars = {47, 46, 97, 92}
Max = 8
Bug = "last"
