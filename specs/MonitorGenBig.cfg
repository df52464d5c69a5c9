CONSTANTS MaxLen = 7
  MaxNotifiers = 3
INIT Init
NEXT Next
INVARIANTS Emit GivenUp
CHECK_DEADLOCK FALSE
