--------------------------- MODULE DirectoryTrace ---------------------------
EXTENDS Directory, TraceUtil
VARIABLES s, rd, i
No == [must |-> {}, may |-> {}, done |-> TRUE, at |-> "."]
(* a directory that is itself removed while it is read *)
Lost(r, n) == IF r.at = n THEN [r EXCEPT !.must = {}, !.may = Always] ELSE r
Init == s = Fresh /\ rd = <<No, No>> /\ i = 1
Both(op(_, _), n) == [h \in 1 .. 2 |-> IF rd[h].at = "." THEN op(rd[h], n) ELSE rd[h]]
Step(e) ==
    CASE e.o = "init"  -> s' = Fresh /\ rd' = <<No, No>>
      [] e.o = "file"  -> s' = [s EXCEPT !.files = @ \cup {e.n}] /\ rd' = Both(Appears, e.n)
      [] e.o = "dir"   -> s' = [s EXCEPT !.dirs = @ \cup {e.n}] /\ rd' = Both(Appears, e.n)
      [] e.o = "gone"  -> s' = [s EXCEPT !.files = @ \ {e.n}, !.dirs = @ \ {e.n}] /\ rd' = [h \in 1 .. 2 |-> Lost(Both(Vanishes, e.n)[h], e.n)]
      [] e.o = "exists" -> s' = s /\ rd' = rd /\ Same("directory exists", i, e.n \in s.dirs \/ e.n = ".", e.r)
      [] e.o = "open"  -> /\ s' = s /\ Same("directory opened", i, e.n \in s.dirs \/ e.n = ".", e.r)
                          /\ rd' = (IF ~ e.r THEN rd ELSE [rd EXCEPT ![e.h] = [must |-> IF e.n = "." THEN Present(s) ELSE Always, may |-> {}, done |-> FALSE, at |-> e.n]])
      [] e.o = "name"  -> s' = s /\ Holds("name not to be given: " \o e.n, i, CanGive(rd[e.h], e.n)) /\ rd' = [rd EXCEPT ![e.h] = Given(@, e.n)]
      [] e.o = "end"   -> s' = s /\ Holds("names left out", i, CanEnd(rd[e.h])) /\ rd' = [rd EXCEPT ![e.h].done = TRUE]
      [] e.o = "close" -> s' = s /\ rd' = [rd EXCEPT ![e.h] = No]
      [] e.o = "fds"   -> s' = s /\ rd' = rd /\ Same("descriptors left open", i, 0, e.r)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
