CONSTANTS Menu = "cfwait"
  Shapes = {11, 21, 22, 111, 211, 1111}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
