INIT Init
NEXT Next
CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
