----------------------------- MODULE PoolDesign -----------------------------
(* Design of the pool: tasks and one stop mark per worker go through one      *)
(* queue.  A task may queue another one at any moment, also after the stop    *)
(* marks; so a worker that draws a stop mark looks behind it before it ends.  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Workers, Tasks, LookBehind

Stop == 0
VARIABLES q, open, pc, cur, told, todo, kids, ran, asked

vars == <<q, open, pc, cur, told, todo, kids, ran, asked>>

(* kids: tasks the owner does not queue itself but which task 1.. may queue *)
Init == /\ q = <<>> /\ open = TRUE
        /\ pc = [w \in Workers |-> "idle"] /\ cur = [w \in Workers |-> 0]
        /\ told = 0
        /\ kids \in SUBSET Tasks
        /\ todo = Tasks \ kids
        /\ ran = [t \in Tasks |-> 0] /\ asked = {}

Owner == /\ todo # {}
         /\ \E t \in todo : q' = Append(q, t) /\ todo' = todo \ {t} /\ asked' = asked \cup {t}
         /\ UNCHANGED <<open, pc, cur, told, kids, ran>>
Close == /\ todo = {} /\ open
         /\ open' = FALSE /\ UNCHANGED <<q, pc, cur, told, todo, kids, ran, asked>>
Tell == /\ ~ open /\ told < Cardinality(Workers)
        /\ q' = Append(q, Stop) /\ told' = told + 1
        /\ UNCHANGED <<open, pc, cur, todo, kids, ran, asked>>

Draw(w) == /\ pc[w] = "idle" /\ q # <<>>
           /\ cur' = [cur EXCEPT ![w] = Head(q)]
           /\ q' = Tail(q)
           /\ pc' = [pc EXCEPT ![w] = IF Head(q) = Stop THEN (IF LookBehind THEN "look" ELSE "end") ELSE "run"]
           /\ UNCHANGED <<open, told, todo, kids, ran, asked>>
Look(w) == /\ pc[w] = "look"
           /\ IF q = <<>> THEN pc' = [pc EXCEPT ![w] = "end"] /\ UNCHANGED <<q, cur>>
              ELSE /\ q' = Tail(q)
                   /\ cur' = [cur EXCEPT ![w] = Head(q)]
                   /\ pc' = [pc EXCEPT ![w] = "give"]
           /\ UNCHANGED <<open, told, todo, kids, ran, asked>>
Give(w) == /\ pc[w] = "give"
           /\ q' = Append(q, Stop)
           /\ pc' = [pc EXCEPT ![w] = IF cur[w] = Stop THEN "end" ELSE "run"]
           /\ UNCHANGED <<open, cur, told, todo, kids, ran, asked>>
(* a task may queue a child in two steps: see that the pool is open, queue *)
See(w) == /\ pc[w] = "run" /\ kids # {} /\ open
          /\ pc' = [pc EXCEPT ![w] = "queue"] /\ UNCHANGED <<q, open, cur, told, todo, kids, ran, asked>>
Child(w) == /\ pc[w] = "queue"
            /\ IF kids = {} THEN UNCHANGED <<q, kids, asked>>
               ELSE \E t \in kids : q' = Append(q, t) /\ kids' = kids \ {t} /\ asked' = asked \cup {t}
            /\ pc' = [pc EXCEPT ![w] = "run"]
            /\ UNCHANGED <<open, cur, told, todo, ran>>
Done(w) == /\ pc[w] = "run"
           /\ ran' = [ran EXCEPT ![cur[w]] = @ + 1]
           /\ pc' = [pc EXCEPT ![w] = "idle"]
           /\ UNCHANGED <<q, open, cur, told, todo, kids, asked>>

Next == Owner \/ Close \/ Tell \/ \E w \in Workers : Draw(w) \/ Look(w) \/ Give(w) \/ See(w) \/ Child(w) \/ Done(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Owner) /\ WF_vars(Close) /\ WF_vars(Tell)
        /\ \A w \in Workers : WF_vars(Draw(w) \/ Look(w) \/ Give(w) \/ Child(w)) /\ WF_vars(Done(w))

AllEnded == \A w \in Workers : pc[w] = "end"
AtMostOnce == \A t \in Tasks : ran[t] <= 1
(* what was accepted has run when the last worker ends *)
NothingLost == AllEnded => \A t \in asked : ran[t] = 1
Stops == AllEnded => told = Cardinality(Workers)
ComesToEnd == <>AllEnded
=============================================================================
