CONSTANTS Depth = 3
  Random = FALSE
  Kinds = {"l", "i"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
