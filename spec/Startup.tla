-------------------------------- MODULE Startup --------------------------------
(* How servers share a runtime directory: a server probes the socket, removes  *)
(* it if nobody answers, and binds it.  Servers end at any moment and leave    *)
(* the socket behind.                                                          *)
EXTENDS Integers, FiniteSets
CONSTANTS Procs, MaxStarts, Overlap, Bug

VARIABLES file,     \* 0: none; i > 0: the socket bound by the ith start
          pc, me, live, starts, refused
vars == <<file, pc, me, live, starts, refused>>

Init == file = 0 /\ pc = [p \in Procs |-> "off"] /\ me = [p \in Procs |-> 0] /\ live = {} /\ starts = 0 /\ refused = 0

Starting(p) == pc[p] \in {"probe", "unlink", "bind"}
Start(p) ==
  /\ pc[p] = "off" /\ starts < MaxStarts
  /\ Overlap \/ \A o \in Procs : ~Starting(o)
  /\ starts' = starts + 1 /\ me' = [me EXCEPT ![p] = starts + 1] /\ pc' = [pc EXCEPT ![p] = "probe"]
  /\ UNCHANGED <<file, live, refused>>
Probe(p) ==
  /\ pc[p] = "probe"
  /\ IF file = 0 THEN pc' = [pc EXCEPT ![p] = "bind"] /\ UNCHANGED refused
     ELSE IF file \in live /\ Bug # "no_probe" THEN pc' = [pc EXCEPT ![p] = "off"] /\ refused' = refused + 1
     ELSE pc' = [pc EXCEPT ![p] = IF Bug = "no_unlink" THEN "bind" ELSE "unlink"] /\ UNCHANGED refused
  /\ UNCHANGED <<file, me, live, starts>>
Unlink(p) == pc[p] = "unlink" /\ file' = 0 /\ pc' = [pc EXCEPT ![p] = "bind"] /\ UNCHANGED <<me, live, starts, refused>>
Bind(p) ==
  /\ pc[p] = "bind"
  /\ IF file = 0 THEN file' = me[p] /\ live' = live \cup {me[p]} /\ pc' = [pc EXCEPT ![p] = "up"] /\ UNCHANGED refused
     ELSE pc' = [pc EXCEPT ![p] = "off"] /\ refused' = refused + 1 /\ UNCHANGED <<file, live>>
  /\ UNCHANGED <<me, starts>>
End(p) ==          \* shut down, killed or crashed, at any point
  /\ pc[p] # "off" /\ pc' = [pc EXCEPT ![p] = "off"] /\ live' = live \ {me[p]}
  /\ UNCHANGED <<file, me, starts, refused>>
Next == \E p \in Procs : Start(p) \/ Probe(p) \/ Unlink(p) \/ Bind(p) \/ End(p)
Spec == Init /\ [][Next]_vars

OneServer == Cardinality(live) <= 1
Reachable == \A i \in live : file = i
(* A start that is not disturbed succeeds exactly if there is no server. *)
Works == [][\A p \in Procs : pc[p] \in {"probe", "bind"} /\ pc'[p] = "off" /\ refused' > refused => live # {}]_vars
================================================================================
