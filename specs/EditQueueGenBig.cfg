CONSTANTS
  Depth = 3
  Caps = {4, 5}
  Fills = {3, 4, 5}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
