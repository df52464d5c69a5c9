CONSTANTS Depth = 5
  MaxObj = 3
  Prepared = FALSE
  Random = FALSE
INIT Init
NEXT Next
INVARIANTS Counted Emit
CHECK_DEADLOCK FALSE
