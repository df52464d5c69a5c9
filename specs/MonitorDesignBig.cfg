CONSTANTS Notifiers = {1,2,3,4}
  Rounds = 4
  Loop = TRUE
  Locked = TRUE
SPECIFICATION Spec
INVARIANTS NotInvented NotMissed
CHECK_DEADLOCK FALSE
