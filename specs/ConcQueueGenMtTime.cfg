CONSTANTS Menu = "mttime"
  Shapes = {1, 2, 11, 21, 111}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
