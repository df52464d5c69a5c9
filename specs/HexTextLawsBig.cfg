CONSTANTS BytesLen = 4
 TextLen = 5
INIT Init
NEXT Next
INVARIANTS Inverse Emit
CHECK_DEADLOCK FALSE
