CONSTANTS MaxLen = 5
  MaxNotifiers = 2
INIT Init
NEXT Next
INVARIANTS Emit GivenUp
CHECK_DEADLOCK FALSE
