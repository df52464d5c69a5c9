CONSTANTS PathLen = 6
 CopyLen = 20
INIT Init
NEXT Next
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
