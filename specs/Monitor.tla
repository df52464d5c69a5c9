------------------------------- MODULE Monitor -------------------------------
(* A completion flag: re-arming clears it, a notification sets it, a wait is  *)
(* over at a moment at which it is set.                                       *)
May(flag, f) == f = "w" => flag
After(flag, f) == IF f = "b" THEN FALSE ELSE IF f = "n" THEN TRUE ELSE flag
(* a thread may stay in its call for good only while it waits for a flag that *)
(* nobody sets any more                                                       *)
MayRest(flag, f) == f = "w" /\ ~ flag
=============================================================================
