---------------------------- MODULE FaultsTrace ----------------------------
(* Histories recorded from the real containers, with one allocation failing.  *)
(* hit: the failure fell into this call; r: the call reported failure.        *)
EXTENDS Faults, TraceUtil
VARIABLES s, i
Init == s = Nothing /\ i = 1
Step(e) ==
    CASE e.o = "init" -> s' = Nothing
      [] e.o = "end"  -> e.n = 0 /\ s' = s
      [] OTHER -> LET x == Effect(s, e) IN
                  /\ IF e.r = 0 THEN x.r = 0 /\ e.d = x.d /\ s' = x.s
                     ELSE (e.hit = 1 \/ x.r = 1) /\ s' = Refusal(s, e)
                  /\ (e.o = "make" /\ e.r = 1) \/ (e.c = Contents(s') /\ e.z = s'.z)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_<<s, i>>
Post == Accepted
=============================================================================
