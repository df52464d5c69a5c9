CONSTANTS PathLen = 8
 CopyLen = 40
INIT Init
NEXT Next
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
