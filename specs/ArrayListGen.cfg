CONSTANTS
  Depth = 3
  Caps = {0, 1, 2, 3}
  Blks = {0, 1, 3}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
