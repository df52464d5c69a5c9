CONSTANTS
  Caps = {1, 2, 3}
  MaxCap = 6
  MaxVal = 5
  Far = 20
INIT Init
NEXT Next
INVARIANTS Refines InRange
CHECK_DEADLOCK FALSE
