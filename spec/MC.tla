---------------------------------- MODULE MC ----------------------------------
(* Small closed systems around Pizauth: users, browsers, providers, files and  *)
(* the clock are represented by nondeterministic actions with budgets, and the *)
(* properties are stated about every reachable state and step.                 *)
EXTENDS Pizauth

CONSTANTS
  Confs,        \* configurations, the first is the initial one; reload may switch to any of them
  Calls,        \* kinds of stimuli in use
  MaxCalls,     \* how many control requests and callbacks altogether
  MaxTime,      \* the clock's end
  Steps,        \* by how much the clock may move at once
  MaxSuspend,   \* longest suspend (0: none)
  Lifes,        \* lifetimes of access tokens
  Reps,         \* kinds of replies of the provider: "ok", "okn" (no refresh token), "net", "trunc", "status", "ejson", "garb"
  MaxRep        \* how many replies other than "ok"

VARIABLE g      \* the environment's budgets and knowledge

(* Constants of the implementation, scaled down so that all of them can be reached. *)
SmallPost == 3
SmallSleep == 1
SmallRetries == 2
SmallTransient == 2
SmallCmd == 3

NeverUnreachable(u) == FALSE
NothingFree(x) == FALSE
HostOk(sec, h, e) == h.host = sec.redirect
vars == <<s, g>>

--------------------------------------------------------------------------------
(* Configurations *)
Sec(id) == [auth_uri |-> "au", fields |-> <<>>, client_id |-> id, secret |-> <<>>, redirect |-> "r", scopes |-> <<>>, token_uri |-> "tu"]
Account(id, rbe, ral, rr) == [sec |-> Sec(id), rbe |-> rbe, ral |-> ral, rr |-> rr]
Glob(nc, tc, ev, iv) == [nc |-> nc, ec |-> <<"ec">>, tc |-> tc, ev |-> ev, iv |-> iv, rbe |-> NONE, ral |-> NONE, rr |-> NONE]
Conf1(f, gl) == [acc |-> f, g |-> gl]

One(id) == "a" :> Account(id, 1, 4, 2)
Two == ("a" :> Account("x", 1, 4, 2)) @@ ("b" :> Account("x", 1, 4, 2))
G0 == Glob(<<>>, <<>>, <<>>, 900)
GE == Glob(<<>>, <<>>, <<"ev">>, 900)
GT == Glob(<<>>, <<"tc">>, <<"ev">>, 900)
GN(iv) == Glob(<<"nc">>, <<>>, <<>>, iv)

ConfsAuth == <<Conf1(One("x"), GE)>>
ConfsAuth2 == <<Conf1(Two, GE)>>
ConfsRefresh == <<Conf1(One("x"), GT)>>
ConfsReload == <<Conf1(One("x"), GE), Conf1(One("y"), GE), Conf1("b" :> Account("x", 1, 4, 2), GE), Conf1(Two, GN(2))>>
ConfsNotify == <<Conf1(One("x"), GN(2)), Conf1(One("x"), GN(1))>>
ConfsEvents == <<Conf1(Two, GE)>>
ConfsAll == <<Conf1(Two, Glob(<<"nc">>, <<"tc">>, <<"ev">>, 2)), Conf1(One("x"), GT), Conf1(One("y"), GN(3))>>

--------------------------------------------------------------------------------
Init ==
  /\ s = [Blank EXCEPT !.up = TRUE, !.hp = 1, !.conf = Confs[1], !.st = Fresh(Confs[1]), !.vers = [a \in DOMAIN Confs[1].acc |-> 1]]
  /\ g = [calls |-> 0, rep |-> 0, made |-> <<>>, dump |-> <<>>, told |-> <<>>, lastn |-> <<>>]

Same == g' = g
AlwaysCmd == \A i \in 1..Len(Confs) : Confs[i].g.ev # <<>>
Names0 == {"a", "b"}
CallKinds == Calls \cap {"show", "refresh", "revoke", "dump", "status", "badreload", "badrestore"}
CallRec(k, a) == [id |-> 1, c |-> IF k = "badreload" THEN "reload" ELSE IF k = "badrestore" THEN "restore" ELSE k, a |-> a, u |-> TRUE, ok |-> k \notin {"badreload", "badrestore"}]

DoCall ==
  /\ s.cq = <<>> /\ g.calls < MaxCalls
  /\ \/ \E k \in CallKinds, a \in (IF "unknown" \in Calls THEN Names0 ELSE Acc) :
          /\ (k \in {"dump", "status", "badreload", "badrestore"} => a = "a")
          /\ Call(CallRec(k, a)) /\ g' = [g EXCEPT !.calls = @ + 1]
     \/ /\ "reload" \in Calls
        /\ \E i \in 1..Len(Confs) : Call([id |-> 1, c |-> "reload", ok |-> TRUE, conf |-> Confs[i]]) /\ g' = [g EXCEPT !.calls = @ + 1]
     \/ /\ "restore" \in Calls /\ g.dump # <<>>
        /\ Call([id |-> 1, c |-> "restore", ok |-> TRUE, acc |-> g.dump]) /\ g' = [g EXCEPT !.calls = @ + 1]

DoCtl ==
  \/ CtlSection /\ g' = [g EXCEPT !.dump = IF s.cq[1].c = "dump" THEN [a \in Acc |-> DumpOf(a)] ELSE @]
  \/ CtlPush /\ g' = [g EXCEPT !.told = IF AlwaysCmd THEN Append(@, [a |-> s.cq[1].a, ev |-> "token_revoked"]) ELSE @]

(* A browser calls back for any request that was ever made (or none).          *)
DoHttp ==
  \/ /\ "callback" \in Calls /\ g.calls < MaxCalls
     /\ \E n \in 1..Len(s.nonces), e \in {TRUE, FALSE} :
          /\ e => "cberror" \in Calls
          /\ LET h == [id |-> g.calls + 1, ok |-> TRUE, st |-> n, scheme |-> "http", host |-> "r", port |-> 1, err |-> e, emsg |-> "e", code |-> <<"c">>] IN
             s' = [s EXCEPT !.nonces[n].obs = n, !.hreqs = @ \cup {h}]
     /\ g' = [g EXCEPT !.calls = @ + 1]
  \/ /\ "badcallback" \in Calls /\ g.calls < MaxCalls
     /\ \E n \in 0..Len(s.nonces), host \in {"r", "q"}, code \in {<<>>, <<"c">>} :
          /\ n = 0 \/ host = "q" \/ code = <<>>
          /\ s' = [s EXCEPT !.hreqs = @ \cup {[id |-> g.calls + 1, ok |-> TRUE, st |-> n, scheme |-> "http", host |-> host, port |-> 1, err |-> FALSE, emsg |-> "", code |-> code]},
                            !.nonces = IF n = 0 THEN @ ELSE [@ EXCEPT ![n].obs = n]]
     /\ g' = [g EXCEPT !.calls = @ + 1]
  \/ \E h \in s.hreqs : HttpSection(h) /\ Same

NTok == Len(g.made) + 1
Reply1(k, life) == [k |-> IF k = "okn" THEN "ok" ELSE k, tok |-> NTok, rtok |-> IF k = "ok" THEN <<NTok>> ELSE <<>>, rep |-> TRUE, ein |-> life, why |-> "w"]
Made(t, k) == IF k \in {"ok", "okn"} THEN [g EXCEPT !.made = Append(@, [a |-> t.a, sec |-> t.sec])]
              ELSE [g EXCEPT !.rep = @ + 1]
Allowed(k) == k \in {"ok", "okn"} \/ g.rep < MaxRep
DoReply ==
  \E k \in Reps, l \in Lifes :
     /\ Allowed(k)
     /\ (k \notin {"ok", "okn"} => l = CHOOSE x \in Lifes : TRUE)
     /\ \/ \E t \in s.auths : AuthReply(t, Reply1(k, l)) /\ g' = Made(t, k)
        \/ \E t \in s.refs : RefReply(t, Reply1(k, l)) /\ g' = Made(t, k)

DoThreads ==
  \/ \E t \in s.auths : (AuthPost(t, 0) \/ AuthConnFail(t) \/ AuthTimeout(t) \/ AuthWake(t)) /\ Same
  \/ \E t \in s.auths : AuthDone(t) /\ Same
  \/ \E t \in s.refs : (RefPost(t, 0) \/ RefConnFail(t) \/ RefTimeout(t) \/ TifStart(t, 1) \/ TifEnd(t, 0) \/ TifEnd(t, 1) \/ TifKill(t) \/ TifDone(t)) /\ Same
  \/ \E t \in s.refs : RefDone(t) /\ Same
  \/ \E x \in BagToSet(s.nerr) : NotifyError(x) /\ Same
  \/ \E a \in Acc : (TimerDue(a) \/ StartRefresh(a)) /\ Same
  \/ \E a \in Acc : Notify(a) /\ g' = [g EXCEPT !.lastn = (s.st[a].ts.n :> Now) @@ @]

DoEvents ==
  \/ \E x \in BagToSet(s.pushes) : Push(x) /\ g' = [g EXCEPT !.told = IF AlwaysCmd THEN Append(@, x) ELSE @]
  \/ EventPop /\ g' = [g EXCEPT !.told = IF @ = <<>> THEN @ ELSE Tail(@)]
  \/ EventStart(1) /\ Same
  \/ EventEnd(1) /\ Same
  \/ EventKill /\ Same

(* Time passes only once everything due has been done: this is what the checks *)
(* of recorded traces require of the implementation.                            *)
Settled == \A a \in Acc : /\ (IsAct(a) /\ ~s.st[a].ts.ong => Due(a) > Now \/ <<a, s.st[a].ver>> \in s.tickets)
                          /\ (IsPend(a) => NotifyAt(a) > Now)
DoTime ==
  \/ \E d \in Steps : Now + d <= MaxTime /\ s.cq = <<>> /\ (Settled \/ "lazy" \in Calls) /\ Advance(d) /\ Same
  \/ \E d \in 1..MaxSuspend : Now + d <= MaxTime /\ s.cq = <<>> /\ s.skew = 0 /\ Suspend(d) /\ Same

Next == DoCall \/ DoCtl \/ DoHttp \/ DoReply \/ DoThreads \/ DoEvents \/ DoTime
Spec == Init /\ [][Next]_vars

(* Nothing depends on what has been observed already.  (s = s makes TLC normalise the parts of s that are not part of the *)
(* view before several workers use them; it does not do that by itself.)                                                  *)
View == <<s = s, [s EXCEPT !.rets = {}, !.hrets = {}, !.gone = {}, !.killed = {}, !.cf = 0, !.launched = EmptyBag, !.cmds = {}], g>>

--------------------------------------------------------------------------------
(* C01, C11: an operation is able to have an effect exactly as long as it has  *)
(* not been superseded.                                                        *)
AuthLive(t) == t.a \in Acc /\ s.st[t.a].ver = t.ver
SupersededIffDead ==
  /\ \A t \in s.auths : t.sup = ~AuthLive(t)
  /\ \A t \in s.refs : t.sup = ~Valid(t)
LiveExchange == \A t \in s.auths : ~t.sup => IsPend(t.a) /\ s.st[t.a].ts.n = t.n /\ s.conf.acc[t.a].sec = t.sec
LiveRefresh == \A t \in s.refs : ~t.sup => IsAct(t.a) /\ s.st[t.a].ts.ong /\ s.st[t.a].ts.rtok = <<t.rtok>> /\ s.conf.acc[t.a].sec = t.sec

EndedA(t) == ~\E u \in s'.auths : u.id = t.id
EndedR(t) == ~\E u \in s'.refs : u.id = t.id /\ u.a = t.a
NoEffect == s'.st = s.st /\ s'.pushes = s.pushes /\ s'.nerr = s.nerr /\ s'.evq = s.evq /\ s'.launched = s.launched
SupersededNoEffect == [][ /\ \A t \in s.auths : t.sup /\ EndedA(t) => NoEffect
                          /\ \A t \in s.refs : t.sup /\ (EndedR(t) \/ \E u \in s'.refs : u.id = t.id /\ u.a = t.a /\ u.ph # t.ph) => NoEffect ]_vars
CompletedTaken == [][ \A t \in s.auths : ~t.sup /\ t.ph = "done" /\ EndedA(t) /\ t.res[1].k = "ok" =>
                        /\ s'.st[t.a].ts.k = "act" /\ s'.st[t.a].ts.tok = t.res[1].tok /\ s'.st[t.a].ts.rtok = t.res[1].rtok
                        /\ s'.st[t.a].ts.exp = Now + t.res[1].ein ]_vars

(* C06, C07: one refresh at a time; none lost. *)
OneRefresh == \A t, u \in s.refs : t.a = u.a /\ ~t.sup /\ ~u.sup => t = u
NeverStuck == \A a \in Acc : IsAct(a) /\ s.st[a].ts.ong => \E t \in s.refs : t.a = a /\ ~t.sup

(* C02, C05: every token belongs to its account and the security settings it was obtained with. *)
TokensBelong ==
  /\ \A a \in Acc : IsAct(a) => /\ g.made[s.st[a].ts.tok] = [a |-> a, sec |-> s.conf.acc[a].sec]
                                /\ s.st[a].ts.rtok # <<>> => g.made[s.st[a].ts.rtok[1]] = [a |-> a, sec |-> s.conf.acc[a].sec]
  /\ \A t \in s.refs : g.made[t.rtok] = [a |-> t.a, sec |-> t.sec]
  /\ \A t \in s.auths : s.nonces[t.n].a = t.a /\ s.nonces[t.n].sec = t.sec
NewRet == s'.rets \ s.rets
Shown == [][ \A x \in NewRet : x.r.k = "tok" => LET a == s.cq[1].a IN IsAct(a) /\ s.st[a].ts.tok = x.r.t /\ s.st[a].ts.exp >= Now ]_vars

(* C03: callbacks that don't match have no effect. *)
Mismatch(h) == \/ ~\E a \in Acc : IsPend(a) /\ s.st[a].ts.n = h.st /\ s.conf.acc[a].sec.redirect = h.host
               \/ ~h.err /\ h.code = <<>>
CallbackMatched == [][ \A h \in s.hreqs : h \notin s'.hreqs /\ Mismatch(h) => NoEffect /\ s'.auths = s.auths ]_vars

(* C02: what a reload keeps. *)
Step(k) == s.cq # <<>> /\ s'.cq = <<>> /\ s.cq[1].c = k
ReloadKeeps == [][ Step("reload") =>
  IF ~s.cq[1].ok THEN [s' EXCEPT !.cq = s.cq, !.rets = s.rets] = s
  ELSE LET c == s.cq[1].conf IN
       /\ s'.conf.acc = c.acc /\ s'.conf.g = c.g /\ DOMAIN s'.st = DOMAIN c.acc
       /\ \A a \in DOMAIN c.acc : IF a \in Acc /\ c.acc[a].sec = s.conf.acc[a].sec
                                  THEN s'.st[a] = s.st[a] /\ \A t \in s.auths \cup s.refs : t.a = a => t \in s'.auths \cup s'.refs
                                  ELSE s'.st[a].ts = Empty
       /\ s'.pushes = s.pushes /\ s'.nerr = s.nerr /\ s'.evq = s.evq ]_vars

(* C15, C16: what a restore does. *)
RestoreExact == [][ Step("restore") =>
  IF ~s.cq[1].ok THEN [s' EXCEPT !.cq = s.cq, !.rets = s.rets] = s
  ELSE LET d == s.cq[1].acc IN
       /\ s'.conf = s.conf /\ s'.pushes = s.pushes /\ s'.nerr = s.nerr /\ s'.evq = s.evq
       /\ \A a \in Acc :
            IF ~IsAct(a) /\ a \in DOMAIN d /\ d[a].ts.k = "act" /\ d[a].sec = s.conf.acc[a].sec
            THEN LET t == s'.st[a].ts IN t.k = "act" /\ t.tok = d[a].ts.tok /\ t.rtok = d[a].ts.rtok /\ t.obt = d[a].ts.obt /\ t.exp = d[a].ts.exp /\ ~t.ong
            ELSE s'.st[a] = s.st[a] ]_vars
(* C21 *)
ReadOnly == [][ Step("dump") \/ Step("status") => [s' EXCEPT !.cq = s.cq, !.rets = s.rets] = s ]_vars

(* C12: events correspond to changes of tokens. *)
TokOf(r, a) == IF a \in DOMAIN r.st /\ r.st[a].ts.k = "act" THEN r.st[a].ts.tok ELSE 0
Changed == {a \in Names0 : TokOf(s, a) # TokOf(s', a)}
EventFor(a) == [a |-> a, ev |-> IF TokOf(s, a) = 0 THEN "token_new" ELSE IF TokOf(s', a) = 0 THEN "token_invalidated" ELSE "token_refreshed"]
EventsMatchChanges == [][ IF s'.cq # s.cq THEN s'.pushes = s.pushes
                          ELSE IF Changed = {} THEN s'.pushes \sqsubseteq s.pushes
                          ELSE Cardinality(Changed) = 1 /\ s'.pushes = s.pushes (+) SetToBag({EventFor(a) : a \in Changed}) ]_vars
(* C13 *)
InOrder == AlwaysCmd => g.told = s.evq
Handed == AlwaysCmd /\ s.evq # <<>> /\ s.ecur = <<>> => s.eact
QueueKept == [][ s'.evq # s.evq => (\E x \in BagToSet(s.pushes) : s'.evq = Append(s.evq, x)) \/ (s.cq # <<>> /\ s.cq[1].c = "revoke" /\ s'.evq = Append(s.evq, [a |-> s.cq[1].a, ev |-> "token_revoked"]))
                                   \/ (s.ecur = <<>> /\ s'.evq = Tail(s.evq)) ]_vars

(* C14: a failure is reported exactly when it resets the pending account. *)
FailedNow == {a \in Acc : IsPend(a) /\ a \in DOMAIN s'.st /\ s'.st[a].ts.k = "empty"}
FailureReported == [][ s'.cq = s.cq => /\ Cardinality(FailedNow) <= 1
                                       /\ \A a \in FailedNow : \E w \in {"e", "w", ""} : s'.nerr = s.nerr (+) SetToBag({[a |-> a, why |-> w]})
                                       /\ FailedNow = {} => s'.nerr \sqsubseteq s.nerr ]_vars

(* C10 *)
NewLaunched == {x \in DOMAIN s'.launched : x.k = "auth" /\ (x \notin DOMAIN s.launched \/ s'.launched[x] > s.launched[x])}
NotifyRight == [][ \A x \in NewLaunched :
                     /\ IsPend(x.a) /\ s.st[x.a].ts.n = x.n /\ s.conf.g.nc = <<x.cmd>>
                     /\ x.n \in DOMAIN g.lastn => Now >= g.lastn[x.n] + s.conf.g.iv ]_vars

(* C09: consecutive failures are counted, and only the command removes the token. *)
Counted == \A a \in Acc : IsAct(a) => s.st[a].ts.fails >= 0 /\ (s.st[a].ts.fails > 0 => s.st[a].ts.lra # NONE)
TransientKept == [][ \A t \in s.refs : ~t.sup /\ t.ph = "done" /\ t.res[1].k \in {"net", "trunc"} /\ (EndedR(t) \/ \E u \in s'.refs : u.id = t.id /\ u.a = t.a /\ u.ph = "tcmd") =>
                       /\ TokOf(s', t.a) = TokOf(s, t.a) /\ s'.st[t.a].ts.rtok = s.st[t.a].ts.rtok
                       /\ s'.st[t.a].ts.fails = s.st[t.a].ts.fails + 1
                       /\ (~EndedR(t)) = (s.conf.g.tc # <<>> /\ (s.st[t.a].ts.fails + 1) % TRANSIENT = 0) ]_vars
PermanentRemoved == [][ \A t \in s.refs : ~t.sup /\ t.ph = "done" /\ t.res[1].k \notin {"net", "trunc", "ok"} /\ EndedR(t) => TokOf(s', t.a) = 0 ]_vars
Verdict == [][ \A t \in s.refs : ~t.sup /\ t.ph = "tdone" /\ EndedR(t) => (TokOf(s', t.a) # 0) = (t.cid = 0) ]_vars

(* C20: no thread, command or connection is able to hold up a control request. *)
Answered == s.cq # <<>> => ENABLED (CtlSection \/ CtlPush)

(* C07, C10: whatever is due can be done. *)
DueEnabled == \A a \in Acc : /\ IsAct(a) /\ ~s.st[a].ts.ong /\ Due(a) <= Now => ENABLED TimerDue(a) \/ ENABLED StartRefresh(a)
                             /\ IsPend(a) /\ NotifyAt(a) <= Now => ENABLED Notify(a)
TicketsAlive == \A v \in s.tickets : v[1] \in Acc /\ s.st[v[1]].ver = v[2] /\ IsAct(v[1])
VersionsUnique == \A a \in Acc : \A t \in s.auths \cup s.refs : t.a = a => t.ver < V(s, a)
================================================================================
