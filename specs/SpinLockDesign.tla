--------------------------- MODULE SpinLockDesign ---------------------------
(* The writer/readers lock as one word holding a writer mark and the number   *)
(* of readers.  A reader that finds the mark after counting itself in takes   *)
(* itself out again.  Recheck = FALSE leaves that out, Preserve = FALSE lets  *)
(* the writer clear the whole word.                                           *)
EXTENDS SpinLock
CONSTANTS Readers, Rounds, Recheck, Preserve
Writer == 0
VARIABLES mark, count, pc, left, s
vars == <<mark, count, pc, left, s>>
Procs == Readers \cup {Writer}
Init == /\ mark = FALSE /\ count = 0 /\ s = Fresh
        /\ pc = [p \in Procs |-> "start"] /\ left = [p \in Procs |-> Rounds]
At(p, a, b) == pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]

WMark == At(Writer, "start", "drain") /\ left[Writer] > 0 /\ mark' = TRUE /\ UNCHANGED <<count, left, s>>
WDrain == At(Writer, "drain", "in") /\ count = 0 /\ s' = Take(s, Writer, "w") /\ UNCHANGED <<mark, count, left>>
WOut == At(Writer, "in", "clear") /\ s' = Give(s, Writer) /\ UNCHANGED <<mark, count, left>>
WClear == /\ At(Writer, "clear", "start") /\ mark' = FALSE /\ left' = [left EXCEPT ![Writer] = @ - 1]
          /\ count' = (IF Preserve THEN count ELSE 0) /\ UNCHANGED s

RLook(p) == At(p, "start", "count") /\ left[p] > 0 /\ ~ mark /\ UNCHANGED <<mark, count, left, s>>
RCount(p) == /\ pc[p] = "count" /\ count' = count + 1
             /\ IF mark /\ Recheck THEN pc' = [pc EXCEPT ![p] = "undo"] /\ s' = s
                ELSE pc' = [pc EXCEPT ![p] = "in"] /\ s' = Take(s, p, "r")
             /\ UNCHANGED <<mark, left>>
RUndo(p) == At(p, "undo", "start") /\ count' = count - 1 /\ UNCHANGED <<mark, left, s>>
ROut(p) == At(p, "in", "leave") /\ s' = Give(s, p) /\ UNCHANGED <<mark, count, left>>
RLeave(p) == At(p, "leave", "start") /\ count' = count - 1 /\ left' = [left EXCEPT ![p] = @ - 1] /\ UNCHANGED <<mark, s>>

W == WMark \/ WDrain \/ WOut \/ WClear
R(p) == RLook(p) \/ RCount(p) \/ RUndo(p) \/ ROut(p) \/ RLeave(p)
Next == W \/ \E p \in Readers : R(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(W) /\ \A p \in Readers : WF_vars(R(p))
Safe == Exclusive(s) /\ count >= 0
Done == <>(\A p \in Procs : left[p] = 0)
=============================================================================
