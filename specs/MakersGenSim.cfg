INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
Numbers = {1, 2, 3, 5}
Depth = 5
