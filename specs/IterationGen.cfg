CONSTANTS Depth = 4
 Max = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
