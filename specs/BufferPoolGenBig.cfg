CONSTANTS Shapes = {4, 22, 111}
  Fills = {0, 2, 64}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
