CONSTANTS MaxWorkers = 2
  MaxTasks = 2
  MaxKids = 1
  Failing = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
