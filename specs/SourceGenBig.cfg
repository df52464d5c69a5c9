CONSTANTS Shapes = {3, 21, 22, 111}
  Masks = {0, 2, 4, 8, 16, 40}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
