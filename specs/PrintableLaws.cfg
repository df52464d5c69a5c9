INIT Init
NEXT Next
INVARIANTS Laws Emit
CONSTANTS Deep = 1
CHECK_DEADLOCK FALSE
