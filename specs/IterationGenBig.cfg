CONSTANTS Depth = 5
 Max = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
