CONSTANTS Notifiers = {1,2}
  Rounds = 2
  Loop = TRUE
  Locked = TRUE
SPECIFICATION Spec
INVARIANTS NotInvented NotMissed
CHECK_DEADLOCK FALSE
