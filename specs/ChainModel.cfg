CONSTANT Elems = {1, 2, 3, 4, 5}
INIT Init
NEXT Next
INVARIANT Refines
CHECK_DEADLOCK FALSE
