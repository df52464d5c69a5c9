CONSTANTS Depth = 30
  MaxObj = 14
  Prepared = TRUE
  Random = TRUE
INIT Init
NEXT Next
INVARIANTS Counted Emit
CHECK_DEADLOCK FALSE
