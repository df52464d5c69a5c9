CONSTANTS Depth = 4
  Random = FALSE
  Kinds = {"b", "B", "w", "p"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
