CONSTANTS
  Depth = 5
  Caps = {1, 2}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
