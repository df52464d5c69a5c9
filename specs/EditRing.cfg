CONSTANTS
  Caps = {1, 2, 3}
  MaxCap = 6
  Items = {1, 2}
  Far = 11
INIT Init
NEXT Next
INVARIANTS Refines InRange
CHECK_DEADLOCK FALSE
