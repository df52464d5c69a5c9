CONSTANTS Depth = 4
 Caps = {1, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
