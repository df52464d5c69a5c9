CONSTANTS Depth = 14
  Random = TRUE
  Kinds = {"l", "i", "m", "n", "q", "s", "S", "t", "Q", "b", "B", "w", "p"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
