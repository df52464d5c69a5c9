CONSTANTS
  Depth = 6
  Caps = {1, 2, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
