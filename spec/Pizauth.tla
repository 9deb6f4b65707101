-------------------------------- MODULE Pizauth --------------------------------
(* The pizauth server: its accounts, the threads working on them, its timers,  *)
(* its commands, and the operations by which users, browsers, providers, the   *)
(* clock and the operating system act on it.                                   *)
(*                                                                             *)
(* The whole state is the record s.  Internal actions are the critical         *)
(* sections of the implementation's threads; environment actions are the       *)
(* externally visible events.  Work that is due because of a clock is enabled  *)
(* when its time has come and has to be done before the system is Quiet.       *)
EXTENDS Config, Bags, TLC

CONSTANTS
  Unreachable(_),          \* token URIs whose host never resolves
  Free(_),                 \* aspects left open (only used to find out which aspect a deviation concerns; FALSE otherwise)
  RedirectMatches(_, _, _) \* does HTTP request h address the redirect URI of security settings sec (environment e)?

VARIABLE s

--------------------------------------------------------------------------------
BagDel(b, x) == b (-) SetToBag({x})
(* Times *)
Plus(a, b) == IF a > INF - b THEN INF ELSE a + b
Minus(a, b) == IF b >= INF THEN -INF ELSE a - b
Min2(a, b) == IF a < b THEN a ELSE b
Now == s.now
Mono == s.now - s.skew          \* the clock by which sleeps and timeouts are measured

POST_TIMEOUT == 30
RETRY_SLEEP == 6
RETRIES == 10
TRANSIENT == 6
EVENT_TIMEOUT == 30
TIF_TIMEOUT == 180
WAKE == 40
TOUCH == 21600

--------------------------------------------------------------------------------
(* Token states *)
Empty == [k |-> "empty"]
Pend(n) == [k |-> "pend", n |-> n, ln |-> NONE]
Act(tok, rtok, obt, exp) == [k |-> "act", tok |-> tok, rtok |-> rtok, obt |-> obt, exp |-> exp, ong |-> FALSE, fails |-> 0, lra |-> NONE]

Acc == DOMAIN s.st
IsAct(a) == s.st[a].ts.k = "act"
IsPend(a) == s.st[a].ts.k = "pend"
MayBeExpired(a) == s.st[a].ts.exp <= Now
MayBeAlive(a) == s.st[a].ts.exp >= Now       \* at the very second of expiry, either is right

(* Give account a the token state ts and a new version.  Versions are unique   *)
(* per account during the life of a server.                                    *)
V(r, a) == IF a \in DOMAIN r.vers THEN r.vers[a] ELSE 1
Bump(r, as) == [r EXCEPT !.vers = [a \in DOMAIN @ \cup as |-> IF a \in as THEN V(r, a) + 1 ELSE @[a]]]
SetTs(r, a, ts) == Bump([r EXCEPT !.st[a] = [ver |-> V(r, a), ts |-> ts]], {a})

(* Ghost: everything in progress for a has been superseded.                    *)
Sup(r, a) == [r EXCEPT !.auths = {IF t.a = a THEN [t EXCEPT !.sup = TRUE] ELSE t : t \in @},
                       !.refs = {IF t.a = a THEN [t EXCEPT !.sup = TRUE] ELSE t : t \in @}]
SupAuths(r, a) == [r EXCEPT !.auths = {IF t.a = a THEN [t EXCEPT !.sup = TRUE] ELSE t : t \in @}]

(* Tickets <<account, version>> (refreshes scheduled but not begun) whose       *)
(* version is gone are dead.                                                   *)
Norm(r) == [r EXCEPT !.tickets = {v \in @ : v[1] \in DOMAIN r.st /\ r.st[v[1]].ver = v[2]},
                     !.eact = @ /\ r.evq # <<>>]

Due(a) ==     \* when should the token of a be refreshed?
  LET t == s.st[a].ts IN
    IF t.lra # NONE THEN Plus(t.lra, EffRr(s.conf, a))
    ELSE Min2(Minus(t.exp, EffRbe(s.conf, a)), Plus(t.obt, EffRal(s.conf, a)))

NotifyAt(a) == IF s.st[a].ts.ln = NONE THEN -INF ELSE Plus(s.st[a].ts.ln, s.conf.g.iv)

--------------------------------------------------------------------------------
(* Initial and restarted states *)
Blank ==
  [up |-> FALSE, hp |-> 0, sp |-> 0, sh |-> TRUE, netup |-> TRUE, dying |-> FALSE,
   conf |-> [acc |-> <<>>, g |-> <<>>], st |-> <<>>, vers |-> <<>>, nonces |-> <<>>,
   now |-> 0, skew |-> 0, grace |-> -INF,
   touched |-> 0, dumped |-> 0, lsn |-> <<>>,
   cq |-> <<>>, rets |-> {}, hreqs |-> {}, hrets |-> {},
   auths |-> {}, refs |-> {}, tickets |-> {}, nerr |-> EmptyBag, gone |-> {}, cf |-> 0,
   launched |-> EmptyBag, cmds |-> {}, killed |-> {}, pushes |-> EmptyBag, evq |-> <<>>, eact |-> FALSE, ecur |-> <<>>]

Fresh(c) == [a \in DOMAIN c.acc |-> [ver |-> 0, ts |-> Empty]]

StartServer(c, hp, sp, sh) ==
  /\ ~s.up
  /\ s' = [s EXCEPT !.up = TRUE, !.hp = hp, !.sp = sp, !.sh = sh, !.conf = [acc |-> c.acc, g |-> c.g], !.st = Fresh(c), !.dying = FALSE, !.grace = -INF, !.touched = Mono, !.lsn = IF "lsn" \in DOMAIN c THEN c.lsn ELSE <<>>]

StopServer ==
  /\ s.up
  /\ s' = [Blank EXCEPT !.now = s.now, !.skew = s.skew, !.nonces = s.nonces, !.netup = s.netup, !.dumped = s.dumped]

(* The socket is touched so that no periodic clean-up removes it.              *)
Touch == s.up /\ s' = [s EXCEPT !.touched = Mono]

--------------------------------------------------------------------------------
(* Control requests: handled one after another, in order of arrival.          *)
Reply(r, id, x) == [r EXCEPT !.cq = Tail(@), !.rets = @ \cup {[id |-> id, r |-> x]}]
Err(m) == [k |-> "err", m |-> m]

Call(c) == /\ s.up /\ s' = [s EXCEPT !.cq = Append(@, c @@ [ph |-> "s"])]

NewRequest(r, a) ==
  LET n == Len(r.nonces) + 1
      r1 == SetTs(r, a, Pend(n))
      r2 == [r1 EXCEPT !.nonces = Append(@, [obs |-> 0, sec |-> r.conf.acc[a].sec, a |-> a, hp |-> r.hp, sp |-> r.sp])]
  IN Sup(r2, a)

PendReply(u, n) == IF u THEN [k |-> "pend", n |-> n] ELSE [k |-> "pend0"]
NextN == Len(s.nonces) + 1

ShowSection(c, expired) ==
  IF c.a \notin Acc THEN Reply(s, c.id, Err("noacct"))
  ELSE CASE s.st[c.a].ts.k = "empty" -> Reply(NewRequest(s, c.a), c.id, PendReply(c.u, NextN))
         [] s.st[c.a].ts.k = "pend" -> Reply(s, c.id, PendReply(c.u, s.st[c.a].ts.n))
         [] s.st[c.a].ts.k = "act" ->
              IF ~expired THEN Reply(s, c.id, [k |-> "tok", t |-> s.st[c.a].ts.tok])
              ELSE Reply([s EXCEPT !.tickets = IF s.st[c.a].ts.ong THEN @ ELSE @ \cup {<<c.a, s.st[c.a].ver>>}], c.id, Err("expired"))

RefreshSection(c) ==
  IF c.a \notin Acc THEN Reply(s, c.id, Err("noacct"))
  ELSE IF IsAct(c.a)
       THEN Reply([s EXCEPT !.tickets = IF s.st[c.a].ts.ong THEN @ ELSE @ \cup {<<c.a, s.st[c.a].ver>>}], c.id, [k |-> "sched"])
       ELSE Reply(NewRequest(s, c.a), c.id, PendReply(c.u, NextN))

RevokeSection(c) ==
  IF c.a \notin Acc THEN Reply(s, c.id, Err("noacct"))
  ELSE [Sup(SetTs(s, c.a, Empty), c.a) EXCEPT !.cq[1].ph = "p"]

PushEvent(r, a, e) == [r EXCEPT !.evq = Append(@, [a |-> a, ev |-> e]), !.eact = TRUE]

StatusOf(a) ==          \* the acceptable descriptions of a
  LET t == s.st[a].ts IN
  CASE t.k = "empty" -> {[k |-> "empty"]}
    [] t.k = "pend" -> {[k |-> "pend", t |-> t.ln]}
    [] t.k = "act" -> (IF MayBeAlive(a) THEN {[k |-> "act", o |-> t.obt, x |-> t.exp]} ELSE {})
                      \cup (IF MayBeExpired(a) THEN {[k |-> "exp", t |-> t.lra]} ELSE {})

DumpOf(a) ==
  LET t == s.st[a].ts IN
  [sec |-> s.conf.acc[a].sec,
   ts |-> IF t.k = "act" THEN [k |-> "act", tok |-> t.tok, rtok |-> t.rtok, obt |-> t.obt, exp |-> t.exp] ELSE Empty]

Kept(c, a) == a \in Acc /\ c.acc[a].sec = s.conf.acc[a].sec

RECURSIVE SupAll(_, _)
SupAll(r, as) == IF as = {} THEN r ELSE LET a == CHOOSE a \in as : TRUE IN SupAll(Sup(r, a), as \ {a})

ReloadTo(c) ==
  LET lost == {a \in Acc : a \notin DOMAIN c.acc \/ ~Kept(c, a)}
      r1 == SupAll(s, lost)
  IN Bump([r1 EXCEPT !.conf = [acc |-> c.acc, g |-> c.g],
                     !.st = [a \in DOMAIN c.acc |-> IF Kept(c, a) THEN s.st[a] ELSE [ver |-> V(s, a), ts |-> Empty]]],
          {a \in DOMAIN c.acc : ~Kept(c, a)})

Restorable(acc, a) == a \in DOMAIN acc /\ acc[a].ts.k = "act" /\ acc[a].sec = s.conf.acc[a].sec /\ ~IsAct(a)
RestoreOf(acc) ==
  LET as == {a \in Acc : Restorable(acc, a)}
      r1 == SupAll(s, as)
  IN Bump([r1 EXCEPT !.st = [a \in Acc |-> IF a \in as THEN [ver |-> V(s, a), ts |-> Act(acc[a].ts.tok, acc[a].ts.rtok, acc[a].ts.obt, acc[a].ts.exp)] ELSE s.st[a]]], as)

(* The critical section of the request at the head of the queue.              *)
CtlSection ==
  /\ s.up /\ s.cq # <<>> /\ s.cq[1].ph = "s" /\ ~s.dying
  /\ LET c == s.cq[1] IN \E expired \in BOOLEAN :
     /\ (IF c.c = "show" /\ c.a \in Acc /\ IsAct(c.a) THEN (IF expired THEN MayBeExpired(c.a) ELSE MayBeAlive(c.a)) ELSE ~expired) = TRUE
     /\ s' = Norm(
       CASE c.c = "show" -> ShowSection(c, expired)
         [] c.c = "refresh" -> RefreshSection(c)
         [] c.c = "revoke" -> RevokeSection(c)
         [] c.c = "status" -> Reply(s, c.id, [k |-> "status", l |-> [a \in Acc |-> StatusOf(a)]])
         [] c.c = "dump" -> Reply(s, c.id, [k |-> "dump", acc |-> [a \in Acc |-> DumpOf(a)]])
         [] c.c = "info" -> Reply(s, c.id, [k |-> "info"])
         [] c.c = "reload" -> IF c.ok THEN Reply(ReloadTo(c.conf), c.id, [k |-> "ok"]) ELSE Reply(s, c.id, Err("other"))
         [] c.c = "restore" -> IF c.ok THEN Reply(RestoreOf(c.acc), c.id, [k |-> "ok"]) ELSE Reply(s, c.id, Err("other"))
         [] c.c = "shutdown" -> [Reply(s, c.id, [k |-> "none"]) EXCEPT !.dying = TRUE]
         [] c.c = "bad" -> Reply(s, c.id, [k |-> "bad"]))

(* revoke tells the event queue before it replies.                            *)
CtlPush ==
  /\ s.up /\ s.cq # <<>> /\ s.cq[1].ph = "p"
  /\ s' = Reply(PushEvent(s, s.cq[1].a, "token_revoked"), s.cq[1].id, [k |-> "ok"])

--------------------------------------------------------------------------------
(* Callback requests.  h: [id (negative once the client has gone), ok (a parsable GET), st (observed index of the  *)
(* state parameter, NONE if absent), scheme, host, port, err, emsg, code]      *)
HttpRequest(h) == /\ s.up /\ s' = [s EXCEPT !.hreqs = @ \cup {h}]

Matching(h) == IF h.st <= 0 THEN {} ELSE {a \in Acc : IsPend(a) /\ s.nonces[s.st[a].ts.n].obs = h.st}

HttpDone(r, h) == [r EXCEPT !.hreqs = @ \ {h}, !.hrets = IF h.id > 0 THEN @ \cup {h.id} ELSE @]

FailAuth(r, a, why) == SupAuths([SetTs(r, a, Empty) EXCEPT !.nerr = @ (+) SetToBag({[a |-> a, why |-> why]})], a)

HttpSection(h) ==
  /\ s.up /\ h \in s.hreqs
  /\ IF ~h.ok \/ Matching(h) = {} THEN s' = HttpDone(s, h)
     ELSE LET a == CHOOSE a \in Matching(h) : TRUE
              sec == s.conf.acc[a].sec
              n == s.st[a].ts.n
          IN IF ~RedirectMatches(sec, h, s) THEN s' = HttpDone(s, h)
             ELSE IF h.err THEN s' = Norm(HttpDone(FailAuth(s, a, h.emsg), h))
             ELSE IF h.code = <<>> THEN s' = HttpDone(s, h)
             ELSE s' = [HttpDone(s, h) EXCEPT !.auths = @ \cup {[id |-> h.id, a |-> a, ver |-> s.st[a].ver, n |-> n, sec |-> sec, code |-> h.code[1],
                                                                 ph |-> "try", tries |-> 0, t |-> 0, pid |-> 0, res |-> <<>>, sup |-> FALSE]}]

--------------------------------------------------------------------------------
(* Exchange threads: try, wait (for the provider), sleep (before the next      *)
(* try), fin (ten failures: about to give up), done (result known).            *)
Ready(uri) == s.netup /\ ~Unreachable(uri)
UpdA(t, u) == [s EXCEPT !.auths = (@ \ {t}) \cup {u}]
Failed(t) == IF t.tries + 1 >= RETRIES THEN [t EXCEPT !.ph = "fin", !.tries = @ + 1, !.t = Mono + RETRY_SLEEP]
             ELSE [t EXCEPT !.ph = "sleep", !.tries = @ + 1, !.t = Mono + RETRY_SLEEP]

AuthPost(t, pid) ==
  /\ t \in s.auths /\ t.ph = "try" /\ Ready(t.sec.token_uri)
  /\ s' = UpdA(t, [t EXCEPT !.ph = "wait", !.pid = pid, !.t = Mono + POST_TIMEOUT])
AuthConnFail(t) ==
  /\ t \in s.auths /\ t.ph = "try" /\ ~Ready(t.sec.token_uri)
  /\ s' = [UpdA(t, Failed(t)) EXCEPT !.cf = @ + 1]
AuthTimeout(t) ==
  /\ t \in s.auths /\ t.ph = "wait" /\ Mono >= t.t
  /\ s' = [UpdA(t, Failed(t)) EXCEPT !.gone = @ \cup {t.pid}]
AuthWake(t) ==
  /\ t \in s.auths /\ t.ph = "sleep" /\ Mono >= t.t
  /\ s' = UpdA(t, [t EXCEPT !.ph = "try"])
AuthReply(t, r) ==
  /\ t \in s.auths /\ t.ph = "wait"
  /\ s' = UpdA(t, IF r.k \in {"net", "garb"} THEN Failed(t) ELSE [t EXCEPT !.ph = "done", !.res = <<r>>])

ExpiryOf(a, r) == IF r.rep THEN Plus(Now, r.ein) ELSE Plus(Now, Min2(EffRal(s.conf, a), INF))
ExpiryKnown(a, r) == r.rep \/ EffRal(s.conf, a) # MAXT

AuthDone(t) ==
  /\ t \in s.auths /\ t.ph \in {"done", "fin"}
  /\ LET r == [s EXCEPT !.auths = @ \ {t}] IN
     s' = IF s.st # <<>> /\ t.a \in Acc /\ s.st[t.a].ver = t.ver
          THEN IF t.ph = "done" /\ t.res[1].k = "ok" /\ ExpiryKnown(t.a, t.res[1])
               THEN Norm(SupAuths([SetTs(r, t.a, Act(t.res[1].tok, t.res[1].rtok, Now, ExpiryOf(t.a, t.res[1])))
                                   EXCEPT !.pushes = @ (+) SetToBag({[a |-> t.a, ev |-> "token_new"]})], t.a))
               ELSE Norm(FailAuth(r, t.a, IF t.ph = "done" /\ t.res[1].k \in {"ejson", "status"} THEN t.res[1].why ELSE ""))
          ELSE r

(* An error notification uses the configuration at the time it is sent;        *)
(* without error_notify_cmd, it is an entry in the log.                        *)
NotifyError(x) ==
  /\ BagIn(x, s.nerr)
  /\ s' = [s EXCEPT !.nerr = @ (-) SetToBag({x}),
                    !.launched = IF s.conf.g.ec = <<>> THEN @ (+) SetToBag({[k |-> "log", a |-> x.a, cmd |-> "", why |-> x.why]}) ELSE IF s.sh THEN @ (+) SetToBag({[k |-> "err", a |-> x.a, cmd |-> s.conf.g.ec[1], why |-> x.why]}) ELSE @]

--------------------------------------------------------------------------------
(* Refreshing: tickets (scheduled), then threads: try, wait, done, tcmd (about *)
(* to run transient_error_if_cmd), trun, tdone.                                *)
TimerDue(a) ==
  /\ s.up /\ a \in Acc /\ IsAct(a) /\ ~s.st[a].ts.ong /\ (Free("rt") \/ Due(a) <= Now) /\ <<a, s.st[a].ver>> \notin s.tickets
  /\ s' = [s EXCEPT !.tickets = @ \cup {<<a, s.st[a].ver>>}]

StartRefresh(a) ==
  /\ s.up /\ a \in Acc /\ <<a, s.st[a].ver>> \in s.tickets
  /\ LET ts == s.st[a].ts IN
     s' = Norm(
       IF ts.rtok = <<>>
       THEN [SetTs(s, a, Empty) EXCEPT !.pushes = @ (+) SetToBag({[a |-> a, ev |-> "token_invalidated"]})]
       ELSE [SetTs(s, a, [ts EXCEPT !.ong = TRUE, !.lra = Now])
             EXCEPT !.refs = @ \cup {[id |-> V(s, a), a |-> a, ver |-> V(s, a), sec |-> s.conf.acc[a].sec, rtok |-> ts.rtok[1], ph |-> "try",
                                      t |-> 0, pid |-> 0, res |-> <<>>, cmd |-> "", cid |-> 0, sup |-> FALSE]}])

UpdR(t, u) == [s EXCEPT !.refs = (@ \ {t}) \cup {u}]
TransRes == <<[k |-> "net"]>>

RefPost(t, pid) ==
  /\ t \in s.refs /\ t.ph = "try" /\ Ready(t.sec.token_uri)
  /\ s' = UpdR(t, [t EXCEPT !.ph = "wait", !.pid = pid, !.t = Mono + POST_TIMEOUT])
RefConnFail(t) ==
  /\ t \in s.refs /\ t.ph = "try" /\ ~Ready(t.sec.token_uri)
  /\ s' = [UpdR(t, [t EXCEPT !.ph = "done", !.res = TransRes]) EXCEPT !.cf = @ + 1]
RefTimeout(t) ==
  /\ t \in s.refs /\ t.ph = "wait" /\ Mono >= t.t
  /\ s' = [UpdR(t, [t EXCEPT !.ph = "done", !.res = TransRes]) EXCEPT !.gone = @ \cup {t.pid}]
RefReply(t, r) ==
  /\ t \in s.refs /\ t.ph = "wait"
  /\ s' = UpdR(t, [t EXCEPT !.ph = "done", !.res = <<r>>])

Valid(t) == t.a \in Acc /\ s.st[t.a].ver = t.ver
Invalidate(r, a) == [SetTs(r, a, Empty) EXCEPT !.pushes = @ (+) SetToBag({[a |-> a, ev |-> "token_invalidated"]})]

RefTrans(t) == IF Free("cls") /\ t.res[1].k # "ok" THEN BOOLEAN ELSE {t.res[1].k \in {"net", "trunc"}}
Judged(f) == IF s.conf.g.tc = <<>> THEN {FALSE} ELSE IF Free("tif") THEN BOOLEAN ELSE {f % TRANSIENT = 0}

RefDone(t) ==
  /\ t \in s.refs /\ t.ph = "done"
  /\ LET r == [s EXCEPT !.refs = @ \ {t}]
         x == t.res[1]
     IN IF ~Valid(t) THEN s' = Norm(r)
        ELSE IF x.k = "ok" /\ ExpiryKnown(t.a, x)
        THEN s' = Norm([SetTs(r, t.a, Act(x.tok, IF x.rtok = <<>> THEN <<t.rtok>> ELSE x.rtok, Now, ExpiryOf(t.a, x)))
                        EXCEPT !.pushes = @ (+) SetToBag({[a |-> t.a, ev |-> "token_refreshed"]})])
        ELSE \E trans \in RefTrans(t) :
             IF ~trans THEN s' = Norm(Invalidate(r, t.a))
             ELSE LET ts == s.st[t.a].ts
                      f == ts.fails + 1
                  IN \E judge \in Judged(f) :
                     LET r1 == SetTs(r, t.a, [ts EXCEPT !.fails = f, !.lra = Now, !.ong = judge])
                     IN s' = Norm(IF judge THEN [r1 EXCEPT !.refs = @ \cup {[t EXCEPT !.ph = "tcmd", !.ver = V(s, t.a), !.cmd = s.conf.g.tc[1]]}] ELSE r1)

TifStart(t, cid) ==
  /\ t \in s.refs /\ t.ph = "tcmd" /\ s.sh
  /\ s' = [UpdR(t, [t EXCEPT !.ph = "trun", !.cid = cid, !.t = Mono + TIF_TIMEOUT]) EXCEPT !.cmds = @ \cup {[cid |-> cid, k |-> "tif"]}]
TifCannot(t) ==
  /\ t \in s.refs /\ t.ph = "tcmd" /\ ~s.sh
  /\ s' = UpdR(t, [t EXCEPT !.ph = "tdone", !.cid = 1])
TifEnd(t, code) ==       \* cid becomes the verdict: 0 keep, 1 remove
  /\ t \in s.refs /\ t.ph = "trun"
  /\ s' = [UpdR(t, [t EXCEPT !.ph = "tdone", !.cid = IF code = 0 THEN 0 ELSE 1]) EXCEPT !.cmds = {c \in @ : c.cid # t.cid}]
TifKill(t) ==
  /\ t \in s.refs /\ t.ph = "trun" /\ Mono >= t.t
  /\ s' = [UpdR(t, [t EXCEPT !.ph = "tdone", !.cid = 1]) EXCEPT !.cmds = {c \in @ : c.cid # t.cid}, !.killed = @ \cup {t.cid}]
TifDone(t) ==
  /\ t \in s.refs /\ t.ph = "tdone"
  /\ LET r == [s EXCEPT !.refs = @ \ {t}] IN
     IF ~Valid(t) THEN s' = Norm(r)
     ELSE \E keep \in (IF Free("tif") THEN BOOLEAN ELSE {t.cid = 0}) :
          s' = Norm(IF keep THEN SetTs(r, t.a, [s.st[t.a].ts EXCEPT !.ong = FALSE]) ELSE Invalidate(r, t.a))

--------------------------------------------------------------------------------
(* Notifications of pending requests *)
Notify(a) ==
  /\ s.up /\ a \in Acc /\ IsPend(a) /\ NotifyAt(a) <= Now
  /\ s' = [s EXCEPT !.st[a].ts.ln = Now,
                    !.launched = IF s.conf.g.nc # <<>> /\ s.sh THEN @ (+) SetToBag({[k |-> "auth", a |-> a, cmd |-> s.conf.g.nc[1], n |-> s.st[a].ts.n]}) ELSE @]

LogEntry(x) == BagIn(x, s.launched) /\ x.k = "log" /\ s' = [s EXCEPT !.launched = @ (-) SetToBag({x})]
Launch(x, cid) ==
  /\ BagIn(x, s.launched)
  /\ s' = [s EXCEPT !.launched = @ (-) SetToBag({x}), !.cmds = @ \cup {[cid |-> cid, k |-> x.k]}]
CmdEnd(cid) ==
  /\ \E c \in s.cmds : c.cid = cid /\ c.k \in {"auth", "err"}
  /\ s' = [s EXCEPT !.cmds = {c \in @ : c.cid # cid}]

--------------------------------------------------------------------------------
(* Token events: threads push, the eventer runs the command for one at a time. *)
Push(x) ==
  /\ BagIn(x, s.pushes)
  /\ s' = PushEvent([s EXCEPT !.pushes = @ (-) SetToBag({x})], x.a, x.ev)

EventPop ==
  /\ s.up /\ s.eact /\ s.ecur = <<>>
  /\ \/ /\ s.conf.g.ev # <<>>
        /\ s' = Norm([s EXCEPT !.evq = Tail(@), !.ecur = IF s.sh THEN <<Head(s.evq) @@ [cmd |-> s.conf.g.ev[1], cid |-> 0, t |-> 0]>> ELSE <<>>])
     \/ /\ s.conf.g.ev = <<>>                \* nobody to tell: drop, and perhaps leave the rest until the next event
        /\ \E go \in BOOLEAN : s' = Norm([s EXCEPT !.evq = Tail(@), !.eact = go])

EventStart(cid) ==
  /\ s.ecur # <<>> /\ s.ecur[1].cid = 0
  /\ s' = [s EXCEPT !.ecur[1].cid = cid, !.ecur[1].t = Mono + EVENT_TIMEOUT, !.cmds = @ \cup {[cid |-> cid, k |-> "event"]}]
EventEnd(cid) ==
  /\ s.ecur # <<>> /\ s.ecur[1].cid = cid /\ cid # 0
  /\ s' = [s EXCEPT !.ecur = <<>>, !.cmds = {c \in @ : c.cid # cid}]
EventKill ==
  /\ s.ecur # <<>> /\ s.ecur[1].cid # 0 /\ Mono >= s.ecur[1].t
  /\ s' = [s EXCEPT !.ecur = <<>>, !.cmds = {c \in @ : c.cid # s.ecur[1].cid}, !.killed = @ \cup {s.ecur[1].cid}]

--------------------------------------------------------------------------------
Internal ==
  \/ CtlSection \/ CtlPush
  \/ \E h \in s.hreqs : HttpSection(h)
  \/ \E t \in s.auths : AuthConnFail(t) \/ AuthTimeout(t) \/ AuthWake(t) \/ AuthDone(t)
  \/ \E x \in BagToSet(s.nerr) : NotifyError(x)
  \/ \E a \in Acc : TimerDue(a) \/ StartRefresh(a) \/ Notify(a)
  \/ \E t \in s.refs : RefConnFail(t) \/ RefTimeout(t) \/ RefDone(t) \/ TifCannot(t) \/ TifKill(t) \/ TifDone(t)
  \/ \E x \in BagToSet(s.pushes) : Push(x)
  \/ EventPop \/ EventKill

(* Nothing is left to do that is not waiting for the environment or a clock.   *)
LateBy(t) == Mono >= t + 1
LaunchedKinds == {x.k : x \in DOMAIN s.launched}
Quiet ==
  /\ s.cq = <<>> /\ s.rets = {} /\ s.hreqs = {} /\ s.hrets = {} /\ s.gone = {} /\ s.killed = {} /\ s.cf = 0
  /\ (\A t \in s.auths : t.ph \in {"wait", "sleep", "fin"} /\ ~LateBy(t.t))
  /\ (\A t \in s.refs : t.ph \in {"wait", "trun"} /\ ~LateBy(t.t))
  /\ s.tickets = {}
  /\ Free("er") \/ (DOMAIN s.nerr = {} /\ "err" \notin LaunchedKinds /\ "log" \notin LaunchedKinds)
  /\ Free("nt") \/ "auth" \notin LaunchedKinds
  /\ \/ Free("ev")
     \/ /\ DOMAIN s.pushes = {}
        /\ (s.ecur # <<>> => s.ecur[1].cid # 0 /\ ~LateBy(s.ecur[1].t))
        /\ (s.ecur = <<>> => ~s.eact)
  /\ Free("touch") \/ Mono - s.touched <= TOUCH
  /\ (Mono >= s.grace) =>
       \A a \in Acc : /\ Free("rt") \/ ((IsAct(a) /\ ~s.st[a].ts.ong) => (Due(a) >= Now))
                      /\ Free("nt") \/ (IsPend(a) => (NotifyAt(a) >= Now))

(* The clock.  While suspended, Mono stands still.                             *)
Advance(d) == s' = [s EXCEPT !.now = @ + d]
Suspend(d) == s' = [s EXCEPT !.now = @ + d, !.skew = @ + d, !.grace = Mono + WAKE]
Net(b) == s' = [s EXCEPT !.netup = b]

--------------------------------------------------------------------------------
(* Invariants of the design *)
TypeOK ==
  /\ DOMAIN s.st = DOMAIN s.conf.acc
  /\ \A a \in Acc : s.st[a].ts.k \in {"empty", "pend", "act"} /\ s.st[a].ver < V(s, a)
================================================================================
