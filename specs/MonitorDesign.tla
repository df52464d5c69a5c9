---------------------------- MODULE MonitorDesign ----------------------------
(* The flag kept with a lock and a condition: notifier sets and signals under *)
(* the lock, the waiter tests in a loop, wake-ups may be spurious.            *)
EXTENDS Integers, Monitor
CONSTANTS Notifiers, Rounds, Loop, Locked
VARIABLES flag, lock, asleep, pc, npc, given, round
vars == <<flag, lock, asleep, pc, npc, given, round>>
Free == 0
Me == 99
Init == /\ flag = TRUE /\ lock = Free /\ asleep = FALSE /\ pc = "begin"
        /\ npc = [n \in Notifiers |-> "lock"] /\ given = FALSE /\ round = 1

Begin == /\ pc = "begin" /\ flag' = After(flag, "b") /\ given' = FALSE /\ pc' = "lock"
         /\ UNCHANGED <<lock, asleep, npc, round>>
Lock == pc = "lock" /\ lock = Free /\ lock' = Me /\ pc' = "test" /\ UNCHANGED <<flag, asleep, npc, given, round>>
Test == /\ pc = "test"
        /\ IF flag THEN pc' = "unlock" /\ UNCHANGED <<lock, asleep>>
           ELSE pc' = "doze" /\ UNCHANGED <<lock, asleep>>
        /\ UNCHANGED <<flag, npc, given, round>>
Doze == pc = "doze" /\ pc' = "sleep" /\ asleep' = TRUE /\ lock' = Free /\ UNCHANGED <<flag, npc, given, round>>
Spurious == pc = "sleep" /\ asleep /\ asleep' = FALSE /\ UNCHANGED <<flag, lock, pc, npc, given, round>>
Wake == /\ pc = "sleep" /\ ~ asleep /\ lock = Free /\ lock' = Me
        /\ pc' = IF Loop THEN "test" ELSE "unlock"
        /\ UNCHANGED <<flag, asleep, npc, given, round>>
Unlock == /\ pc = "unlock" /\ lock' = Free
          /\ IF round < Rounds THEN pc' = "begin" /\ round' = round + 1 ELSE pc' = "done" /\ UNCHANGED round
          /\ UNCHANGED <<flag, asleep, npc, given>>

NLock(n) == /\ npc[n] = "lock" /\ (Locked => lock = Free) /\ lock' = (IF Locked THEN n ELSE lock)
            /\ npc' = [npc EXCEPT ![n] = "set"] /\ UNCHANGED <<flag, asleep, pc, given, round>>
NSet(n) == /\ npc[n] = "set" /\ flag' = After(flag, "n") /\ given' = TRUE /\ npc' = [npc EXCEPT ![n] = "signal"]
           /\ UNCHANGED <<lock, asleep, pc, round>>
NSignal(n) == /\ npc[n] = "signal" /\ asleep' = FALSE /\ npc' = [npc EXCEPT ![n] = "unlock"]
              /\ UNCHANGED <<flag, lock, pc, given, round>>
NUnlock(n) == /\ npc[n] = "unlock" /\ lock' = (IF Locked THEN Free ELSE lock) /\ npc' = [npc EXCEPT ![n] = "done"]
              /\ UNCHANGED <<flag, asleep, pc, given, round>>

Next == \/ Begin \/ Lock \/ Test \/ Doze \/ Spurious \/ Wake \/ Unlock
        \/ \E n \in Notifiers : NLock(n) \/ NSet(n) \/ NSignal(n) \/ NUnlock(n)
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Begin \/ Lock \/ Test \/ Doze \/ Wake \/ Unlock)
        /\ \A n \in Notifiers : WF_vars(NLock(n) \/ NSet(n) \/ NSignal(n) \/ NUnlock(n))
(* a finished wait was notified, and a waiter sleeps only while it may *)
NotInvented == pc = "unlock" => given
NotMissed == pc = "sleep" /\ asleep /\ (\A n \in Notifiers : npc[n] \in {"lock", "done"}) => MayRest(flag, "w")
=============================================================================
