INIT Init
NEXT Next
INVARIANTS Laws Emit
CONSTANTS Deep = 2
CHECK_DEADLOCK FALSE
