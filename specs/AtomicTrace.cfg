SPECIFICATION Spec
INVARIANT Mark
CHECK_DEADLOCK FALSE
POSTCONDITION Post
