---------------------------- MODULE DirectoryGen ----------------------------
(* Histories of making and removing names while up to two readings go on.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Most
VARIABLES h, there, open
Names == {"a", "b"}
vars == <<h, there, open>>
Init == h = <<>> /\ there = [n \in Names |-> "no"] /\ open = <<FALSE, FALSE>>
Add(o) == h' = Append(h, o)
Next ==
    /\ Len(h) < Most
    /\ \/ \E n \in Names : there[n] = "no" /\ there' = [there EXCEPT ![n] = "file"] /\ Add("f" \o n) /\ UNCHANGED open
       \/ there["b"] = "no" /\ there' = [there EXCEPT !["b"] = "dir"] /\ Add("db") /\ UNCHANGED open
       \/ \E n \in Names : there[n] # "no" /\ there' = [there EXCEPT ![n] = "no"] /\ Add("g" \o n) /\ UNCHANGED open
       \/ \E n \in Names \cup {"."} : Add("e" \o n) /\ UNCHANGED <<there, open>>
       \/ \E n \in Names \cup {"."}, k \in 1 .. 2 :
            /\ ~ open[k] /\ (k = 2 => open[1])
            /\ open' = [open EXCEPT ![k] = n = "." \/ there[n] = "dir"] /\ Add("o" \o ToString(k) \o n) /\ UNCHANGED there
       \/ \E k \in 1 .. 2 : open[k] /\ \E o \in {"r", "c"} :
            /\ Add(o \o ToString(k)) /\ open' = [open EXCEPT ![k] = o = "r"] /\ UNCHANGED there
Emit == Len(h) = Most => PrintT("@@" \o ToJson(h))
=============================================================================
