-------------------------------- MODULE Wakeup --------------------------------
(* How the notifier and the refresher wait for work: one thread computes when  *)
(* the next piece of work is due, waits that long (but at most MaxWait, since  *)
(* sleeping does not count the time of a suspend) on a condition variable with *)
(* a predicate, and then does what is due.  Others change what is due and then *)
(* set the predicate.  Pizauth.tla takes for granted what is checked here:     *)
(* whatever is due gets done, soon after a suspend at the latest (its TimerDue,*)
(* Notify and Quiet).                                                          *)
EXTENDS Integers

CONSTANTS MaxTime, MaxWait, MaxSuspend, MaxChanges,
          Bug        \* "" or a deliberate mistake, to see that it is found

NONE == -1
VARIABLES due,       \* when work is due (NONE: there is none)
          chg,       \* changes of due that have not been notified yet
          changes,   \* how many changes there were
          early,     \* notifications made before their change (only with Bug = "notify_first")
          pred, pc, wake, until, now, mono, resumed
vars == <<due, chg, changes, early, pred, pc, wake, until, now, mono, resumed>>

Min(a, b) == IF a < b THEN a ELSE b

Init == /\ due = NONE /\ chg = 0 /\ changes = 0 /\ early = 0 /\ pred = FALSE /\ pc = "compute"
        /\ wake = NONE /\ until = NONE /\ now = 0 /\ mono = 0 /\ resumed = -MaxWait - 1

(* Others *)
Change ==          \* a new token, a request, a reload ...
  /\ changes < MaxChanges
  /\ \E t \in {NONE} \cup now..(now + MaxWait + 3) : due' = t
  /\ changes' = changes + 1
  /\ IF Bug = "notify_first" THEN early > 0 /\ early' = early - 1 /\ chg' = chg ELSE chg' = chg + 1 /\ early' = early
  /\ UNCHANGED <<pred, pc, wake, until, now, mono, resumed>>
Notify ==
  /\ IF Bug = "notify_first" THEN early < 1 /\ changes < MaxChanges /\ early' = early + 1 /\ chg' = chg
     ELSE chg > 0 /\ chg' = chg - 1 /\ early' = early
  /\ pred' = (Bug # "no_predicate")
  /\ pc' = IF pc = "blocked" THEN "lock" ELSE pc
  /\ UNCHANGED <<due, changes, wake, until, now, mono, resumed>>

(* The thread *)
Compute ==
  /\ pc = "compute"
  /\ wake' = IF due = NONE THEN NONE ELSE IF Bug = "no_cap" THEN due ELSE Min(due, now + MaxWait)
  /\ pc' = IF Bug = "clear_late" THEN "clear" ELSE "lock"
  /\ UNCHANGED <<due, chg, changes, early, pred, until, now, mono, resumed>>
ClearLate == pc = "clear" /\ pred' = FALSE /\ pc' = "lock" /\ UNCHANGED <<due, chg, changes, early, wake, until, now, mono, resumed>>
Lock ==            \* with the predicate's lock held
  /\ pc = "lock"
  /\ IF pred \/ (wake # NONE /\ wake <= now)
     THEN pc' = "work" /\ pred' = FALSE /\ until' = NONE
     ELSE pc' = "blocked" /\ pred' = pred /\ until' = IF wake = NONE THEN NONE ELSE mono + (wake - now)
  /\ UNCHANGED <<due, chg, changes, early, wake, now, mono, resumed>>
Timeout ==
  /\ pc = "blocked" /\ until # NONE /\ mono >= until
  /\ pc' = IF Bug = "timeout_is_work" THEN "compute" ELSE "lock"
  /\ UNCHANGED <<due, chg, changes, early, pred, wake, until, now, mono, resumed>>
Spurious == pc = "blocked" /\ pc' = "lock" /\ UNCHANGED <<due, chg, changes, early, pred, wake, until, now, mono, resumed>>
Work ==            \* with the state's lock held
  /\ pc = "work"
  /\ pc' = "compute"
  /\ due' = IF due # NONE /\ due <= now THEN NONE ELSE due
  /\ UNCHANGED <<chg, changes, early, pred, wake, until, now, mono, resumed>>

(* Time passes when nothing is left to do. *)
Idle == pc = "blocked" /\ chg = 0 /\ early = 0 /\ ~(until # NONE /\ mono >= until)
Tick == Idle /\ now < MaxTime /\ now' = now + 1 /\ mono' = mono + 1 /\ UNCHANGED <<due, chg, changes, early, pred, pc, wake, until, resumed>>
Suspend == /\ Idle /\ \E d \in 1..MaxSuspend : now + d <= MaxTime /\ now' = now + d
           /\ resumed' = mono
           /\ UNCHANGED <<due, chg, changes, early, pred, pc, wake, until, mono>>

Next == Change \/ Notify \/ Compute \/ ClearLate \/ Lock \/ Timeout \/ Spurious \/ Work \/ Tick \/ Suspend
Fair == WF_vars(Compute) /\ WF_vars(ClearLate) /\ WF_vars(Lock) /\ WF_vars(Timeout) /\ WF_vars(Work) /\ WF_vars(Notify) /\ SF_vars(Tick)
Spec == Init /\ [][Next]_vars /\ Fair

(* When the system is idle, nothing is overdue, except shortly after a suspend. *)
NothingOverdue == Idle /\ due # NONE /\ due < now => mono <= resumed + MaxWait
NoLostWakeup == Idle => ~pred /\ (due # NONE => until # NONE /\ (until - mono <= due - now \/ mono <= resumed + MaxWait))
(* Work that stays due gets done (or there is no time left). *)
Done == \A t \in 0..MaxTime : (due = t) ~> (due # t \/ now >= MaxTime)
================================================================================
