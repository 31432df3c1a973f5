INIT Init
NEXT Next
CONSTANT Pieces = 2
CHECK_DEADLOCK FALSE
