INIT Init
NEXT Next
CONSTANT Limit = 3
CONSTRAINT Small
CHECK_DEADLOCK FALSE
