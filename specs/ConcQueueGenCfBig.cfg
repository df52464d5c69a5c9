CONSTANTS Menu = "cf"
  Shapes = {22, 111}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
