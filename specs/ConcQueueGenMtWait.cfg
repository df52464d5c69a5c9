CONSTANTS Menu = "mtwait"
  Shapes = {11, 21, 22, 111, 1111}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
