---------------------------- MODULE ThreadPoolGen ----------------------------
(* All small programs on a worker pool: number of workers, which of them fail *)
(* to start, submitters with their tasks (a task is the number of tasks it    *)
(* queues itself when it runs), finaliser or not, one or two shutdowns.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxWorkers, MaxTasks, MaxKids, Failing

RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Lists == UNION {[1 .. k -> 0 .. MaxKids] : k \in 0 .. MaxTasks}
Subs == {<<a>> : a \in Lists} \cup {<<a, b>> : a \in Lists \ {<<>>}, b \in Lists}

VARIABLE p
Init == p \in UNION {[w : {n}, fail : IF Failing THEN 1 .. (Pow(n) - 1) ELSE {0}, fini : {0, 1}, twice : {1, 2, 3}, subs : Subs] : n \in 0 .. MaxWorkers}
Next == FALSE /\ p' = p
Total == LET t(k) == Len(p.subs[k]) IN IF Len(p.subs) = 1 THEN t(1) ELSE t(1) + t(2)
Emit == Total <= MaxTasks + 1 => PrintT("@@" \o ToJson(p))
=============================================================================
