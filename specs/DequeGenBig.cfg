CONSTANTS
  Depth = 7
  Caps = {1, 2, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
