CONSTANT Fine = FALSE
INIT Init
NEXT Next
INVARIANTS Valid Exact RoundTrip Alive Emit
CHECK_DEADLOCK FALSE
