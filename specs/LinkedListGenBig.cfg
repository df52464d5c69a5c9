CONSTANT Max = 6
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
