CONSTANTS MaxWorkers = 4
  MaxTasks = 2
  MaxKids = 1
  Failing = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
