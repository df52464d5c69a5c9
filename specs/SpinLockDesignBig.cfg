SPECIFICATION Spec
INVARIANT Safe
PROPERTY Done
CHECK_DEADLOCK FALSE
CONSTANTS
Readers = {1, 2, 3}
Rounds = 2
Recheck = TRUE
Preserve = TRUE
