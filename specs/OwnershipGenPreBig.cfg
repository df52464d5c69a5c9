CONSTANTS Depth = 3
  MaxObj = 7
  Random = FALSE
  Prepared = TRUE
INIT Init
NEXT Next
INVARIANTS Counted Emit
CHECK_DEADLOCK FALSE
