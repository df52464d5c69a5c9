---------------------------- MODULE ForwardTrace ----------------------------
EXTENDS Forward, TraceUtil
VARIABLES o, i
Init == o = <<>> /\ i = 1

Ops(e) == {e.ops[k] : k \in 1 .. Len(e.ops)}
(* A result: [ok, v, n] and the references to the values given to it. *)
Drop(c, v) == IF v = 0 THEN c ELSE [c EXCEPT ![v] = @ - 1]
Take(c, v) == IF v = 0 THEN c ELSE [c EXCEPT ![v] = @ + 1]

Cleanup == IF "destroy" \in o.ops THEN <<<<"destroy", "self">>>> ELSE <<>>
Step(e) ==
    CASE e.o = "init" -> o' = [kind |-> e.k, ops |-> Ops(e), heap |-> e.heap = 1, refs |-> 1, null |-> e.null = 1]
                         /\ Same("source", i, e.source, e.src)
      [] e.o = "call" ->
           /\ o' = o
           /\ Same("operations called by " \o e.c, i, IF o.null THEN <<>> ELSE Expected(o, e.c, e.a), e.log)
           /\ Holds("value returned by " \o e.c, i, Returned(IF o.null THEN [o EXCEPT !.ops = {}] ELSE o, e.c, e.ans, e.r))
      [] e.o = "can" ->
           /\ o' = o
           /\ Same("readable", i, ~ o.null /\ "read" \in o.ops, e.read = 1)
           /\ Same("writable", i, ~ o.null /\ "write" \in o.ops, e.write = 1)
      [] e.o = "text" -> o' = o /\ Holds("text of a record", i, e.log = <<>> /\ e.given = 1)
      [] e.o = "reserve" -> o' = [o EXCEPT !.refs = @ + 1]
      [] e.o = "destroy" ->
           LET last == o.refs = 1 /\ ~ o.null IN
           /\ o' = [o EXCEPT !.refs = @ - 1]
           /\ IF o.kind = "aerospike" THEN Holds("clean-up", i, e.log \in {<<>>, Cleanup})
              ELSE Same("clean-up", i, IF last THEN Cleanup ELSE <<>>, e.log)
           /\ (o.kind \in {"timer", "module"} => Same("answer of clean-up", i, IF last /\ "destroy" \in o.ops THEN e.ans.p ELSE "1", e.r))
           (* a timer whose clean-up fails may be kept *)
           /\ IF o.kind = "timer" /\ e.r # "0" THEN Holds("released", i, e.rel = 1 => o.heap /\ last)
              ELSE Same("released", i, IF last /\ o.heap THEN 1 ELSE 0, e.rel)
      [] e.o = "result" ->   (* created; e.how: ok, failed or empty *)
           /\ o' = [kind |-> "result", heap |-> e.heap = 1, refs |-> 1, ok |-> e.how = "ok", v |-> e.v,
                    cnt |-> Take([k \in 1 .. 3 |-> 1], e.v)]
           /\ Same("success", i, o'.ok, e.ok = 1)
           /\ Same("value", i, e.v, e.val)
           /\ Same("references", i, o'.cnt, e.cnt)
      [] e.o = "reset" ->
           /\ o' = [o EXCEPT !.ok = (e.how = "ok"), !.v = e.v, !.cnt = Take(Drop(o.cnt, o.v), e.v)]
           /\ Same("success", i, o'.ok, e.ok = 1)
           /\ Same("value", i, e.v, e.val)
           /\ Same("references", i, o'.cnt, e.cnt)
      [] e.o = "rreserve" -> o' = [o EXCEPT !.refs = @ + 1] /\ Same("references", i, o.cnt, e.cnt) /\ Same("same result", i, 1, e.same)
      [] e.o = "rdestroy" ->
           LET last == o.refs = 1 IN
           /\ o' = [o EXCEPT !.refs = @ - 1, !.cnt = IF last THEN Drop(o.cnt, o.v) ELSE o.cnt]
           /\ Same("references", i, o'.cnt, e.cnt)
           /\ Same("released", i, IF last /\ o.heap THEN 1 ELSE 0, e.rel)
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
Post == Accepted
=============================================================================
