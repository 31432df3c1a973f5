INIT Init
NEXT Next
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
