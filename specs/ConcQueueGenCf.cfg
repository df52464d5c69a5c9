CONSTANTS Menu = "cf"
  Shapes = {21, 111}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
