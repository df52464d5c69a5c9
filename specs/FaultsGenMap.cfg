CONSTANTS Depth = 4
  Random = FALSE
  Kinds = {"m", "n"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
