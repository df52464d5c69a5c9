INIT Init
NEXT Next
INVARIANTS RoundTrip Sizes Measured NoPrefix Peeked Seen Emit
CONSTANTS MaxDeep = 6
 Rich = TRUE
CHECK_DEADLOCK FALSE
