----------------------------- MODULE CondQueue -----------------------------
(* Design of the thread-safe queues: one lock, one condition variable.  A     *)
(* push stores its item and signals while holding the lock; a pop waits in a  *)
(* loop as long as the queue is empty.  Waits may end without a signal, a     *)
(* signal wakes any one sleeper, a timed sleeper may wake at its deadline.    *)
(* Whatever the programs of the threads, no sleeper is left next to an item,  *)
(* and every item is taken at most once.                                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, MaxOps, MaxSpurious

Ops == {"push", "popf", "popt", "pop0"}

VARIABLES prog,   \* operations left, per thread
          pc,     \* "idle", "lock", "in", "sleep", "relock", "out"
          lock,   \* owner or 0
          q, next, taken, empties, spurious, expired

vars == <<prog, pc, lock, q, next, taken, empties, spurious, expired>>

Programs == UNION {[1 .. k -> Ops] : k \in 0 .. MaxOps}

Init == /\ prog \in [Threads -> Programs]
        /\ pc = [t \in Threads |-> "idle"]
        /\ lock = 0 /\ q = <<>> /\ next = 1 /\ taken = <<>> /\ empties = {} /\ spurious = 0
        /\ expired = [t \in Threads |-> FALSE]

Op(t) == Head(prog[t])
Sleeping(t) == pc[t] = "sleep"

Start(t) == /\ pc[t] = "idle" /\ prog[t] # <<>>
            /\ pc' = [pc EXCEPT ![t] = "lock"]
            /\ UNCHANGED <<prog, lock, q, next, taken, empties, spurious, expired>>

Acquire(t) == /\ pc[t] \in {"lock", "relock"} /\ lock = 0
              /\ lock' = t
              /\ pc' = [pc EXCEPT ![t] = "in"]
              /\ UNCHANGED <<prog, q, next, taken, empties, spurious, expired>>

Push(t) == /\ pc[t] = "in" /\ Op(t) = "push"
           /\ q' = Append(q, next) /\ next' = next + 1
           /\ \/ \E w \in Threads : Sleeping(w) /\ pc' = [pc EXCEPT ![w] = "relock", ![t] = "out"]
              \/ (\A w \in Threads : ~ Sleeping(w)) /\ pc' = [pc EXCEPT ![t] = "out"]
           /\ UNCHANGED <<prog, lock, taken, empties, spurious, expired>>

Take(t) == /\ pc[t] = "in" /\ Op(t) # "push" /\ q # <<>>
           /\ taken' = Append(taken, Head(q)) /\ q' = Tail(q)
           /\ pc' = [pc EXCEPT ![t] = "out"]
           /\ UNCHANGED <<prog, lock, next, empties, spurious, expired>>

Wait(t) == /\ pc[t] = "in" /\ q = <<>> /\ Op(t) \in {"popf", "popt"} /\ ~ expired[t]
           /\ lock' = 0
           /\ pc' = [pc EXCEPT ![t] = "sleep"]
           /\ UNCHANGED <<prog, q, next, taken, empties, spurious, expired>>

GiveUp(t) == /\ pc[t] = "in" /\ q = <<>>
             /\ Op(t) = "pop0" \/ (Op(t) = "popt" /\ expired[t])
             /\ empties' = empties \cup {<<t, Op(t), expired[t]>>}
             /\ pc' = [pc EXCEPT ![t] = "out"]
             /\ UNCHANGED <<prog, lock, q, next, taken, spurious, expired>>

Leave(t) == /\ pc[t] = "out"
            /\ lock' = 0
            /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ prog' = [prog EXCEPT ![t] = Tail(@)]
            /\ expired' = [expired EXCEPT ![t] = FALSE]
            /\ UNCHANGED <<q, next, taken, empties, spurious>>

Spurious(t) == /\ Sleeping(t) /\ spurious < MaxSpurious
               /\ spurious' = spurious + 1
               /\ pc' = [pc EXCEPT ![t] = "relock"]
               /\ UNCHANGED <<prog, lock, q, next, taken, empties, expired>>

Expire(t) == /\ Sleeping(t) /\ Op(t) = "popt"
             /\ expired' = [expired EXCEPT ![t] = TRUE]
             /\ pc' = [pc EXCEPT ![t] = "relock"]
             /\ UNCHANGED <<prog, lock, q, next, taken, empties, spurious>>

Work(t) == Start(t) \/ Acquire(t) \/ Push(t) \/ Take(t) \/ Wait(t) \/ GiveUp(t) \/ Leave(t) \/ Expire(t)
Next == \E t \in Threads : Work(t) \/ Spurious(t)

Rest == \A t \in Threads : ~ ENABLED Work(t)

NoOneLeftAsleep == Rest => (\A t \in Threads : Sleeping(t) => Op(t) = "popf" /\ q = <<>>)
                           /\ (\A t \in Threads : ~ Sleeping(t) => prog[t] = <<>>)
ExactlyOnce == taken \o q = [k \in 1 .. (next - 1) |-> k]
OnlyTimedGiveUp == \A e \in empties : e[2] = "pop0" \/ (e[2] = "popt" /\ e[3])
=============================================================================
