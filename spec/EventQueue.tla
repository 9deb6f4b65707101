------------------------------ MODULE EventQueue ------------------------------
(* The queue of token events: several threads push, one takes them out.  The    *)
(* queue and the predicate of the condition variable have separate locks.       *)
(* Pizauth.tla takes for granted what is checked here (its Push and EventPop).  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, MaxPush, Bug

VARIABLES q, pred, pc, tpc, n, out, last
vars == <<q, pred, pc, tpc, n, out, last>>

Init == q = <<>> /\ pred = FALSE /\ pc = "lock" /\ tpc = [t \in Threads |-> "idle"] /\ n = 0 /\ out = <<>> /\ last = 0

(* Pushing threads: Eventer::token_event *)
Begin(t) == tpc[t] = "idle" /\ n < MaxPush /\ n' = n + 1 /\ tpc' = [tpc EXCEPT ![t] = IF Bug = "notify_first" THEN "notify" ELSE "push"] /\ UNCHANGED <<q, pred, pc, out, last>>
PushQ(t) == tpc[t] = "push" /\ last' = last + 1 /\ q' = Append(q, last + 1) /\ tpc' = [tpc EXCEPT ![t] = IF Bug = "notify_first" THEN "idle" ELSE "notify"] /\ UNCHANGED <<pred, pc, n, out>>
Tell(t) == tpc[t] = "notify" /\ pred' = TRUE /\ pc' = (IF pc = "blocked" THEN "lock" ELSE pc) /\ tpc' = [tpc EXCEPT ![t] = IF Bug = "notify_first" THEN "push" ELSE "idle"] /\ UNCHANGED <<q, n, out, last>>

(* Eventer::eventer *)
Lock == pc = "lock" /\ (IF pred THEN pc' = "pop" /\ pred' = (Bug = "clear_after") ELSE pc' = "blocked" /\ pred' = pred) /\ UNCHANGED <<q, tpc, n, out, last>>
Pop == pc = "pop" /\ (IF q = <<>> THEN pc' = (IF Bug = "clear_after" THEN "clear" ELSE "lock") /\ UNCHANGED q ELSE q' = Tail(q) /\ pc' = "run") /\ UNCHANGED <<pred, tpc, n, out, last>>
Clear == pc = "clear" /\ pred' = FALSE /\ pc' = "lock" /\ UNCHANGED <<q, tpc, n, out, last>>
Run == pc = "run" /\ out' = Append(out, Len(out) + 1) /\ pc' = (IF Bug = "one_only" THEN "lock" ELSE "pop") /\ UNCHANGED <<q, pred, tpc, n, last>>

Next == (\E t \in Threads : Begin(t) \/ PushQ(t) \/ Tell(t)) \/ Lock \/ Pop \/ Clear \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Idle == pc = "blocked" /\ \A t \in Threads : tpc[t] = "idle"
NoneLeft == Idle => q = <<>> /\ Len(out) = last
AllRun == <>[](n = MaxPush /\ Len(out) = MaxPush)
================================================================================
