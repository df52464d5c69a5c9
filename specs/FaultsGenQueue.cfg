CONSTANTS Depth = 6
  Random = FALSE
  Kinds = {"q", "s", "S", "t", "Q"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
