INIT Init
NEXT Next
CONSTANT Limit = 2
CONSTRAINT Small
CHECK_DEADLOCK FALSE
