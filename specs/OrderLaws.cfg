INIT Init
NEXT Next
INVARIANTS Laws Chains Emit
CONSTANTS Rich = TRUE
CHECK_DEADLOCK FALSE
