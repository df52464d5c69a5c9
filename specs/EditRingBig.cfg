CONSTANTS
  Caps = {1, 2, 3, 5}
  MaxCap = 6
  Items = {1, 2}
  Far = 14
INIT Init
NEXT Next
INVARIANTS Refines InRange
CHECK_DEADLOCK FALSE
