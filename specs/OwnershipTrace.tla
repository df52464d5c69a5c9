--------------------------- MODULE OwnershipTrace ---------------------------
(* Histories recorded from the real code, with the heap objects each call     *)
(* released.                                                                  *)
EXTENDS Ownership, HistUtil
VARIABLES st, i
vars == <<st, i>>
Init == st = Start /\ i = 1
SetOf(sq) == {sq[k] : k \in 1 .. Len(sq)}
Event(e) ==
    CASE e.f = "init" -> st' = Start
      [] e.f = "end"  -> e.n = 0 /\ st' = st
      [] OTHER -> /\ IF e.r = 0 THEN st' \in Outcomes(st, e) ELSE st' = Refused(st, e)
                  /\ st'.freed = SetOf(e.freed)
Next == i <= Len(Trace) /\ Event(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Mark == Progress(i)
Post == Explained
=============================================================================
