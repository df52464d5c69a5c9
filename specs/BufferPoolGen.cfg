CONSTANTS Shapes = {3, 21, 111, 11}
  Fills = {0, 1, 2, 64}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
