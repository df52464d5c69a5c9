CONSTANTS MaxWorkers = 3
  MaxTasks = 3
  MaxKids = 2
  Failing = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
