CONSTANTS Shapes = {2, 3, 11, 21, 111}
  Masks = {0, 1, 2, 3, 4, 8, 16, 24, 32}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
