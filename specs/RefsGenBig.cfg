CONSTANTS MaxLen = 4
  MaxThreads = 3
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
