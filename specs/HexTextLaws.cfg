CONSTANTS BytesLen = 3
 TextLen = 4
INIT Init
NEXT Next
INVARIANTS Inverse Emit
CHECK_DEADLOCK FALSE
