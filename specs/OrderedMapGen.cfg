CONSTANTS Depth = 5
 NKeys = 3
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
