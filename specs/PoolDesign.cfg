CONSTANTS Workers = {11,12}
  Tasks = {1,2,3}
  LookBehind = TRUE
SPECIFICATION Spec
INVARIANTS AtMostOnce NothingLost Stops
PROPERTY ComesToEnd
CHECK_DEADLOCK FALSE
