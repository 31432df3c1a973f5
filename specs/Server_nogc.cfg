CONSTANTS
 Conns = {1, 2, 3}
 Max = 1
 Bug = "nogc"
SPECIFICATION Spec
INVARIANTS Limit Fullness Consistent AfterGone StaysUp
PROPERTIES NoLateServe Ends Served
CHECK_DEADLOCK FALSE
