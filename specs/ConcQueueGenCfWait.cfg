CONSTANTS Menu = "cfwait"
  Shapes = {11, 21, 111, 1111}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
