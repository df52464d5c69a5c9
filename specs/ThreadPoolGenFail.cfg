CONSTANTS MaxWorkers = 3
  MaxTasks = 1
  MaxKids = 1
  Failing = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
