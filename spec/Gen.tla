---------------------------------- MODULE Gen ----------------------------------
(* Stimuli for the real server, from the specification.  TLC simulates the     *)
(* specification in a random environment and prints, for each behaviour, what  *)
(* the environment did and in what situation; harness/gen.py picks behaviours  *)
(* which together cover as many pairs of situation and stimulus as possible,   *)
(* and harness/scen.py replays them on the real server.                        *)
EXTENDS Pizauth, Json

CONSTANTS Depth, Conf0, Mode      \* Mode: "mixed", or "refresh": tokens are obtained and kept, and refreshing them goes wrong

VARIABLES g        \* log: what the environment did; n: counter for ids; dumps: dumps taken; ci: current configuration
gvars == <<s, g>>

NeverUnreachable(u) == FALSE
NothingFree(x) == FALSE
AllMatch(sec, h, e) == TRUE

--------------------------------------------------------------------------------
(* Configurations: sec.client_id stands for a variant of the identifying       *)
(* settings.  harness/gen.py builds the corresponding files.                    *)
Sec(v) == [auth_uri |-> "au", fields |-> <<>>, client_id |-> v, secret |-> <<>>, redirect |-> "r", scopes |-> <<>>, token_uri |-> "tu"]
A(v, rbe, ral, rr) == [sec |-> Sec(v), rbe |-> rbe, ral |-> ral, rr |-> rr]
G(nc, ec, tc, ev, iv) == [nc |-> nc, ec |-> ec, tc |-> tc, ev |-> ev, iv |-> iv, rbe |-> NONE, ral |-> NONE, rr |-> NONE]
All(iv) == G(<<"N">>, <<"R">>, <<"T">>, <<"V">>, iv)
xy(x, y) == "x" :> x @@ "y" :> y
Confs == <<
  [acc |-> xy(A("0", 20, NONE, 10), A("0", NONE, NONE, NONE)), g |-> All(900)],
  [acc |-> xy(A("0", 50, 60, 5), A("3", 0, NONE, 25)), g |-> G(<<"N2">>, <<>>, <<"T2">>, <<"V2">>, 40)],
  [acc |-> xy(A("4", 20, NONE, 10), A("0", 20, 100, 10)), g |-> G(<<>>, <<"R">>, <<>>, <<"V">>, 20)],
  [acc |-> "x" :> A("0", 20, NONE, 10), g |-> All(60)],
  [acc |-> "y" :> A("0", 10, NONE, 30), g |-> G(<<"N">>, <<"R2">>, <<"T">>, <<>>, 7)] >>

--------------------------------------------------------------------------------
Init == /\ s = [Blank EXCEPT !.up = TRUE, !.hp = 1, !.conf = Confs[Conf0], !.st = Fresh(Confs[Conf0]), !.vers = [a \in DOMAIN Confs[Conf0].acc |-> 1]]
        /\ g = [log |-> <<>>, n |-> 1, dumps |-> <<>>, old |-> FALSE]

Fresh1 == g.n
Same == g' = g
Tick == g' = [g EXCEPT !.n = @ + 1]

Clean == /\ \/ s.rets # {} \/ s.hrets # {} \/ s.gone # {} \/ s.killed # {} \/ s.cf # 0
         /\ s' = [s EXCEPT !.rets = {}, !.hrets = {}, !.gone = {}, !.killed = {}, !.cf = 0]

(* What the server does by itself. *)
Server ==
  \/ Clean /\ Same
  \/ CtlSection /\ g' = [g EXCEPT !.dumps = IF s.cq[1].c = "dump" THEN Append(@, [a \in Acc |-> DumpOf(a)]) ELSE @]
  \/ CtlPush /\ Same
  \/ (\E h \in s.hreqs : HttpSection(h)) /\ Same
  \/ (\E t \in s.auths : AuthPost(t, 0) \/ AuthConnFail(t) \/ AuthTimeout(t) \/ AuthWake(t) \/ AuthDone(t)) /\ Same
  \/ (\E x \in BagToSet(s.nerr) : NotifyError(x)) /\ Same
  \/ (\E a \in Acc : TimerDue(a) \/ StartRefresh(a) \/ Notify(a)) /\ Same
  \/ (\E t \in s.refs : RefPost(t, 0) \/ RefConnFail(t) \/ RefTimeout(t) \/ RefDone(t) \/ TifCannot(t) \/ TifKill(t) \/ TifDone(t)) /\ Same
  \/ (\E t \in s.refs : TifStart(t, Fresh1)) /\ Tick
  \/ (\E x \in BagToSet(s.launched) : x.k # "log" /\ Launch(x, Fresh1)) /\ Tick
  \/ (\E x \in BagToSet(s.launched) : LogEntry(x)) /\ Same
  \/ (\E x \in BagToSet(s.pushes) : Push(x)) /\ Same
  \/ EventPop /\ Same
  \/ EventStart(Fresh1) /\ Tick
  \/ EventKill /\ Same
Busy == ENABLED Server

--------------------------------------------------------------------------------
(* The situation of an account, and the stimuli.                               *)
Phases(S) == {t.ph : t \in S}
Sit(a) == IF a \notin Acc THEN <<"none">>
  ELSE LET t == s.st[a].ts
           au == {x \in s.auths : x.a = a}
           rf == {x \in s.refs : x.a = a}
           live(S) == Phases({x \in S : x.ver = s.st[a].ver})
           dead(S) == Phases({x \in S : x.ver # s.st[a].ver})
       IN <<t.k, IF t.k = "act" THEN <<t.ong, t.rtok # <<>>, t.exp <= Now, IF t.fails = 0 THEN 0 ELSE IF t.fails % 6 = 5 THEN 5 ELSE IF t.fails % 6 = 0 THEN 6 ELSE 1, t.lra # NONE>>
                 ELSE IF t.k = "pend" THEN <<t.ln # NONE>> ELSE <<>>,
            live(au), dead(au), live(rf), dead(rf)>>
Situation == [x |-> Sit("x"), y |-> Sit("y"), ev |-> IF s.evq = <<>> THEN IF s.ecur = <<>> THEN 0 ELSE 1 ELSE 2, net |-> s.netup, q |-> ~Busy, sus |-> Mono < s.grace]
Log(e) == Append(g.log, [e |-> e, s |-> Situation])
Did(e) == g' = [g EXCEPT !.log = Log(e), !.n = @ + 1]

Req(c, e) == Call([id |-> g.n] @@ c) /\ Did(e)
Calm == Mode = "refresh"
Rare == ~Calm \/ RandomElement(1..12) = 1
Users ==
  \E a \in {"x", "y"} :
    \/ Req([c |-> "show", a |-> a, u |-> TRUE], [k |-> "show", a |-> a])
    \/ Req([c |-> "refresh", a |-> a, u |-> TRUE], [k |-> "refresh", a |-> a])
    \/ /\ RandomElement(1..3) = 1 /\ Rare
       /\ Req([c |-> "revoke", a |-> a], [k |-> "revoke", a |-> a])
Admins ==
  \/ Req([c |-> "status"], [k |-> "status"])
  \/ Req([c |-> "dump"], [k |-> "dump"])
  \/ \E i \in 1..Len(Confs) : Req([c |-> "reload", ok |-> TRUE, conf |-> Confs[i]], [k |-> "reload", i |-> i])
  \/ \E i \in {Len(g.dumps), Len(g.dumps) - 1} : i > 0 /\ Req([c |-> "restore", ok |-> TRUE, acc |-> g.dumps[i]], [k |-> "restore", i |-> i])
Browsers ==
  \E n \in 1..Len(s.nonces), e \in {TRUE, FALSE} :
     LET a == s.nonces[n].a
         cur == a \in Acc /\ IsPend(a) /\ s.st[a].ts.n = n
     IN /\ cur \/ (n >= Len(s.nonces) - 2 /\ RandomElement(1..5) = 1)
        /\ e => RandomElement(1..5) = 1 /\ Rare
        /\ s' = [s EXCEPT !.nonces[n].obs = n, !.hreqs = @ \cup {[id |-> g.n, ok |-> TRUE, st |-> n, scheme |-> "http", host |-> "r", port |-> 1, err |-> e, emsg |-> "e", code |-> <<"c">>]}]
        /\ Did([k |-> "cb", a |-> a, cur |-> cur, err |-> e])
Rep(k, ein, rt) == [k |-> k, tok |-> g.n, rtok |-> IF rt THEN <<g.n>> ELSE <<>>, rep |-> TRUE, ein |-> ein, why |-> "w"]
Provider ==
  \E k \in {"ok", "ok2", "net", "net2", "trunc", "status", "ejson", "garb"}, ein \in {RandomElement({5, 30, 60, 100, 150, 500, 3600})}, rt \in {RandomElement({TRUE, TRUE, FALSE})} :
     LET kk == IF k = "ok2" THEN "ok" ELSE IF k = "net2" THEN "net" ELSE k
         e(t, w) == [k |-> "reply", a |-> t.a, w |-> w, r |-> kk, ein |-> ein, rt |-> rt, live |-> t.ver = (IF t.a \in Acc THEN s.st[t.a].ver ELSE 0)]
     IN \/ \E t \in s.auths : t.ph = "wait" /\ kk # "trunc" /\ (kk # "ok" => RandomElement(1..3) = 1 /\ Rare) /\ AuthReply(t, Rep(kk, ein, rt)) /\ Did(e(t, "auth"))
        \/ \E t \in s.refs : t.ph = "wait" /\ (kk \in {"status", "ejson", "garb"} => RandomElement(1..3) = 1 /\ Rare) /\ (kk = "ok" /\ Calm => RandomElement(1..6) = 1) /\ RefReply(t, Rep(kk, ein, rt)) /\ Did(e(t, "refresh"))
Commands ==
  \/ \E code \in {0, 1} : \E t \in s.refs : t.ph = "trun" /\ TifEnd(t, code) /\ Did([k |-> "cmd", w |-> "tif", a |-> t.a, code |-> code])
  \/ \E code \in {0, 1} : s.ecur # <<>> /\ s.ecur[1].cid # 0 /\ EventEnd(s.ecur[1].cid) /\ Did([k |-> "cmd", w |-> "event", a |-> s.ecur[1].a, code |-> code])
  \/ \E c \in s.cmds : c.k \in {"auth", "err"} /\ CmdEnd(c.cid) /\ Did([k |-> "cmd", w |-> c.k, a |-> "", code |-> 0])
Deltas == {1, 7, 30, 100} \cup
  {d \in UNION ({ {Due(a) - Now - 1, Due(a) - Now, s.st[a].ts.exp - Now, s.st[a].ts.exp - Now + 1} : a \in {b \in Acc : IsAct(b)}}
                \cup {{NotifyAt(a) - Now} : a \in {b \in Acc : IsPend(b)}}
                \cup {{t.t - Mono - 1, t.t - Mono} : t \in s.auths \cup s.refs}
                \cup {{x.t - Mono} : x \in {s.ecur[i] : i \in 1..Len(s.ecur)}}) : d \in 1..4000}
Clock ==
  \/ \E d \in {RandomElement(Deltas)} : ~Busy /\ Quiet /\ Advance(d) /\ Did([k |-> "adv", d |-> d])
  \/ \E d \in {RandomElement({10, 100, 1000})} : ~Busy /\ Quiet /\ RandomElement(1..6) = 1 /\ Mono >= s.grace /\ Suspend(d) /\ Did([k |-> "susp", d |-> d])
World ==
  \/ RandomElement(1..8) = 1 /\ s.netup /\ Net(FALSE) /\ Did([k |-> "net", up |-> FALSE])
  \/ RandomElement(1..2) = 1 /\ ~s.netup /\ Net(TRUE) /\ Did([k |-> "net", up |-> TRUE])
  \/ RandomElement(1..25) = 1 /\ ~Busy /\ StopServer /\ Did([k |-> "kill"])
Start ==
  /\ ~s.up
  /\ \E i \in 1..Len(Confs) : StartServer(Confs[i], 1, 0, TRUE) /\ Did([k |-> "start", i |-> i])

Next ==
  IF ~s.up THEN Start
  ELSE IF Busy /\ RandomElement(1..12) > 1 THEN Server
  ELSE IF Len(s.cq) < 3 THEN ((Calm => RandomElement(1..3) = 1) /\ Users) \/ (RandomElement(1..3) = 1 /\ Rare /\ Admins) \/ ((Calm => RandomElement(1..3) = 1) /\ Browsers) \/ Provider \/ Commands \/ Clock \/ (RandomElement(1..3) = 1 /\ (Rare \/ ~s.netup) /\ World) \/ Server
  ELSE Server
Spec == Init /\ [][Next]_gvars

Emit == TLCGet("level") = Depth => PrintT("LOG " \o ToJson([c |-> Conf0, log |-> g.log]))
================================================================================
