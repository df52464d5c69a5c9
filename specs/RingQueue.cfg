CONSTANTS
  Caps = {1, 2, 3}
  MaxCap = 6
  MaxVal = 3
  Far = 13
INIT Init
NEXT Next
INVARIANTS Refines InRange
CHECK_DEADLOCK FALSE
