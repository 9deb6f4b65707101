--------------------------------- MODULE Trace ---------------------------------
(* Are the recorded traces of the real server behaviours of Pizauth?           *)
(* Many traces are checked in one run: tid selects one in the initial state.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

File == ndJsonDeserialize(IOEnv.TRACES)
U == File[1].uris                       \* first record: how URI strings are parsed
Traces == SubSeq(File, 2, Len(File))
Relaxed == {File[1].relax[i] : i \in 1..Len(File[1].relax)}   \* normally empty; see "attribution" in DESIGN.md
IsFree(x) == x \in Relaxed

VARIABLES tid, pos, s

Ev == Traces[tid].ev

Unreach(uri) == IF uri \in DOMAIN U THEN U[uri].dns ELSE FALSE
PortOf(sec, e) == IF e.sp # 0 /\ U[sec.redirect].lhttps THEN e.sp ELSE e.hp
RedirMatch(sec, h, e) ==
  /\ h.scheme = U[sec.redirect].scheme
  /\ h.host = U[sec.redirect].host
  /\ h.port = PortOf(sec, e)
RedirUrl(sec, e) == LET p == PortOf(sec, e) IN IF p = 0 THEN U[sec.redirect].pre0 \o U[sec.redirect].post ELSE U[sec.redirect].pre \o ToString(p) \o U[sec.redirect].post

P == INSTANCE Pizauth WITH Unreachable <- Unreach, Free <- IsFree, RedirectMatches <- RedirMatch

INSTANCE Config
Range(f) == {f[x] : x \in DOMAIN f}
Is(b) == b = TRUE      \* evaluate b as a value (TLC would otherwise enumerate its disjuncts as different steps)

--------------------------------------------------------------------------------
(* Authorisation URLs *)
RECURSIVE Join(_, _)
Join(q, sep) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)

UrlOk(o, m) ==       \* o: observed, m: nonce record
  LET sec == m.sec
      pre == U[sec.auth_uri].q
      std == {<<"access_type", "offline">>, <<"code_challenge", "$C">>, <<"code_challenge_method", "S256">>, <<"client_id", sec.client_id>>,
              <<"redirect_uri", RedirUrl(sec, m)>>, <<"response_type", "code">>, <<"state", "$S">>}
             \cup (IF sec.scopes = <<>> THEN {} ELSE {<<"scope", Join(sec.scopes, " ")>>})
      k == Len(pre)
      f == Len(sec.fields)
      n == Cardinality(std)
  IN /\ o.wf
     /\ o.b = U[sec.auth_uri].base
     /\ Len(o.p) = k + n + f
     /\ SubSeq(o.p, 1, k) = pre
     /\ {o.p[i] : i \in (k + 1)..(k + n)} = std
     /\ SubSeq(o.p, k + n + 1, k + n + f) = sec.fields

Bindable(r, n, o) ==
  /\ IsFree("url") \/ (UrlOk(o, r.nonces[n]) /\ o.c = o.n)
  /\ \/ r.nonces[n].obs = o.n
     \/ /\ r.nonces[n].obs = 0
        /\ \A i \in 1..Len(r.nonces) : r.nonces[i].obs # o.n
Bind(r, n, o) == [r EXCEPT !.nonces[n].obs = o.n]

--------------------------------------------------------------------------------
(* Replies *)
Near(x, y) == x = y \/ (x >= INF /\ y >= INF) \/ (x # NONE /\ y # NONE /\ x - y \in -1..1)

StatusOk(m, l) ==        \* m: account -> acceptable descriptions, l: the lines
  IF IsFree("st") THEN TRUE ELSE
  /\ Len(l) = Cardinality(DOMAIN m)
  /\ {l[i].a : i \in 1..Len(l)} = DOMAIN m
  /\ \A i \in 1..Len(l) : \E e \in m[l[i].a] : LET o == l[i] IN
       /\ o.k = e.k
       /\ (e.k = "exp" \/ (e.k = "pend" /\ ~IsFree("nt"))) => Near(o.t, e.t)
       /\ (e.k = "act") => (Near(o.o, e.o) /\ Near(o.x, e.x))

DumpOk(acc, l) ==
  IF IsFree("dp") THEN TRUE ELSE
  /\ Len(l) = Cardinality(DOMAIN acc)
  /\ {l[i].a : i \in 1..Len(l)} = DOMAIN acc
  /\ \A i \in 1..Len(l) : LET o == l[i]  e == acc[o.a] IN
       /\ o.sec = e.sec
       /\ o.ts.k = e.ts.k
       /\ (e.ts.k = "act") => o.ts.tok = e.ts.tok /\ o.ts.rtok = e.ts.rtok /\ Near(o.ts.obt, e.ts.obt) /\ Near(o.ts.exp, e.ts.exp)

(* Every dump has a nonce of its own (nn: nonces are numbered as they are first seen), and no secret in it can be read. *)
SealedOk(o) == IsFree("enc") \/ (o.nn = s.dumped + 1 /\ ~o.plain)
Sealed(r, x) == IF x.k = "dump" THEN [r EXCEPT !.dumped = @ + 1] ELSE r

PortStr(p) == IF p = 0 THEN "none" ELSE ToString(p)

RetOk(x, o) ==      \* x: a computed reply other than pend
  CASE x.k = "tok" -> o.k = "tok" /\ o.t = x.t
    [] x.k = "pend0" -> o.k = "pend0"
    [] x.k = "sched" -> o.k = "sched"
    [] x.k = "ok" -> o.k = "ok"
    [] x.k = "none" -> o.k = "none"
    [] x.k = "err" -> o.k = "err" /\ (x.m = "other" \/ o.m = x.m)
    [] x.k = "bad" -> o.k \in {"none", "err"}
    [] x.k = "info" -> o.k = "info" /\ o.hp = PortStr(s.hp) /\ o.sp = PortStr(s.sp) /\ (o.key \/ IsFree("cert"))
    [] x.k = "status" -> o.k = "status" /\ StatusOk(x.l, o.l)
    [] x.k = "dump" -> o.k = "dump" /\ o.ver = 1 /\ DumpOk(x.acc, o.acc) /\ SealedOk(o)

EvRet(e) ==
  \E y \in s.rets :
    /\ y.id = e.id
    /\ LET r == [s EXCEPT !.rets = @ \ {y}] IN
       IF y.r.k = "pend"
       THEN e.r.k = "pend" /\ Is(Bindable(r, y.r.n, e.r)) /\ s' = Bind(r, y.r.n, e.r)
       ELSE Is(RetOk(y.r, e.r)) /\ s' = Sealed(r, y.r)

--------------------------------------------------------------------------------
(* Requests *)
AccMap(l) == [a \in {l[i].a : i \in 1..Len(l)} |-> LET o == l[CHOOSE i \in 1..Len(l) : l[i].a = a] IN [sec |-> o.sec, ts |-> o.ts]]

EvCall(e) ==
  P!Call(CASE e.c \in {"show", "refresh"} -> [id |-> e.id, c |-> e.c, a |-> e.a, u |-> e.u]
           [] e.c = "revoke" -> [id |-> e.id, c |-> e.c, a |-> e.a]
           [] e.c = "reload" -> IF e.ok /\ Accepted(U, e.ast) THEN [id |-> e.id, c |-> e.c, ok |-> TRUE, conf |-> Eval(e.ast)]
                                ELSE [id |-> e.id, c |-> e.c, ok |-> FALSE]
           [] e.c = "restore" -> IF e.ok THEN [id |-> e.id, c |-> e.c, ok |-> TRUE, acc |-> AccMap(e.acc)] ELSE [id |-> e.id, c |-> e.c, ok |-> FALSE]
           [] OTHER -> [id |-> e.id, c |-> e.c])

MAXREQ == 16384        \* requests larger than this are turned down; how much of them may be read at most (with buffers of TLS)
MAXREAD == 65536
EvHCall(e) == P!HttpRequest([id |-> e.id, ok |-> e.ok /\ e.size <= MAXREQ, st |-> e.st, scheme |-> e.scheme, host |-> e.host, port |-> e.port, err |-> e.err, emsg |-> e.emsg, code |-> e.code, sure |-> e.sure])
EvHRet(e) == \/ s.dying /\ UNCHANGED s
             \/ e.id \in s.hrets /\ Is(e.s >= 200 \/ e.lossy \/ IsFree("hs")) /\ Is(e.read <= MAXREAD \/ IsFree("size")) /\ s' = [s EXCEPT !.hrets = @ \ {e.id}]
EvHGone(e) == s' = [s EXCEPT !.hreqs = {[h EXCEPT !.id = IF h.id = e.id THEN 0 - h.id ELSE h.id] : h \in @}, !.hrets = @ \ {e.id}]

--------------------------------------------------------------------------------
(* The token endpoint *)
AuthForm(t, m) ==
  << <<"client_id", t.sec.client_id>> >>
  \o (IF t.sec.secret = <<>> THEN <<>> ELSE << <<"client_secret", t.sec.secret[1]>> >>)
  \o << <<"code", t.code>>, <<"code_verifier", "$V">>, <<"grant_type", "authorization_code">>, <<"redirect_uri", RedirUrl(t.sec, s)>> >>
RefForm(t) ==
  << <<"client_id", t.sec.client_id>> >>
  \o (IF t.sec.secret = <<>> THEN <<>> ELSE << <<"client_secret", t.sec.secret[1]>> >>)
  \o << <<"grant_type", "refresh_token">>, <<"refresh_token", t.rtok>> >>

EvPost(e) ==
  /\ e.m = "POST"
  /\ \/ \E t \in s.auths : /\ IF IsFree("form") THEN e.code = t.code ELSE e.p = AuthForm(t, s) /\ e.uri = U[t.sec.token_uri].full /\ e.ch = s.nonces[t.n].obs
                           /\ P!AuthPost(t, e.pid)
     \/ \E t \in s.refs : /\ IF IsFree("form") THEN e.rt = t.rtok ELSE e.p = RefForm(t) /\ e.uri = U[t.sec.token_uri].full
                          /\ P!RefPost(t, e.pid)
EvPostReply(e) ==
  \/ \E t \in s.auths : t.pid = e.pid /\ P!AuthReply(t, e.r)
  \/ \E t \in s.refs : t.pid = e.pid /\ P!RefReply(t, e.r)
  \/ e.pid \in s.gone /\ s' = [s EXCEPT !.gone = @ \ {e.pid}]       \* too late
EvPostGone(e) ==
  \/ e.pid \in s.gone /\ s' = [s EXCEPT !.gone = @ \ {e.pid}]
  \/ s.dying /\ UNCHANGED s
EvConnFail == s.cf > 0 /\ s' = [s EXCEPT !.cf = @ - 1]

--------------------------------------------------------------------------------
(* Commands *)
Loose(k) == (k = "event" /\ IsFree("ev")) \/ (k = "auth" /\ IsFree("nt")) \/ (k \in {"err", "log"} /\ IsFree("er"))
EvCmdStart(e) ==
  /\ ~e.leak \/ IsFree("leak")
  /\ IF Loose(e.k)
     THEN LET r == [s EXCEPT !.cmds = @ \cup {[cid |-> e.cid, k |-> "loose"]}] IN
          IF e.k # "auth" THEN s' = r
          ELSE s' = r \/ \E n \in DOMAIN s.nonces : s.nonces[n].obs = 0 /\ Is(Bindable(s, n, e.u)) /\ s' = Bind(r, n, e.u)
     ELSE
     \/ /\ e.k = "auth"
        /\ \E x \in DOMAIN s.launched : /\ x.k = "auth" /\ x.a = e.a /\ x.cmd = e.cmd
                                        /\ Is(Bindable(s, x.n, e.u))
                                        /\ s' = Bind([s EXCEPT !.launched = P!BagDel(@, x), !.cmds = @ \cup {[cid |-> e.cid, k |-> "auth"]}], x.n, e.u)
     \/ /\ e.k = "err" /\ e.named
        /\ \E x \in DOMAIN s.launched : /\ x.k = "err" /\ x.a = e.a /\ x.cmd = e.cmd
                                        /\ Is((x.why # "") => (x.why \in Range(e.marks)))
                                        /\ P!Launch(x, e.cid)
     \/ /\ e.k = "event" /\ s.ecur # <<>> /\ s.ecur[1].a = e.a /\ s.ecur[1].ev = e.ev /\ s.ecur[1].cmd = e.cmd
        /\ P!EventStart(e.cid)
     \/ /\ e.k = "tif"
        /\ \E t \in s.refs : t.a = e.a /\ t.cmd = e.cmd /\ P!TifStart(t, e.cid)
EvLogged(e) == \/ IsFree("er") /\ UNCHANGED s
               \/ \E x \in DOMAIN s.launched : /\ x.k = "log" /\ x.a \in Range(e.as) /\ Is((x.why # "") => (x.why \in Range(e.marks))) /\ ~IsFree("er") /\ Is(~e.leak \/ IsFree("leak"))
                                             /\ P!LogEntry(x)
EvCmdEnd(e) ==
  \/ [cid |-> e.cid, k |-> "loose"] \in s.cmds /\ s' = [s EXCEPT !.cmds = @ \ {[cid |-> e.cid, k |-> "loose"]}]
  \/ P!CmdEnd(e.cid)
  \/ P!EventEnd(e.cid)
  \/ \E t \in s.refs : t.ph = "trun" /\ t.cid = e.cid /\ P!TifEnd(t, e.code)
  \/ e.cid \in s.killed /\ s' = [s EXCEPT !.killed = @ \ {e.cid}]
EvCmdKilled(e) == \/ [cid |-> e.cid, k |-> "loose"] \in s.cmds /\ s' = [s EXCEPT !.cmds = @ \ {[cid |-> e.cid, k |-> "loose"]}]
                  \/ e.cid \in s.killed /\ s' = [s EXCEPT !.killed = @ \ {e.cid}]

--------------------------------------------------------------------------------
(* The command line: what a command prints and its exit code follow from the   *)
(* server's reply.  e.out: what is on stdout, e.err: something is on stderr,   *)
(* e.nurl: number of URLs anywhere in the output, e.full: stdout cannot be     *)
(* written.                                                                    *)
Silent(e) == e.out.k = "nothing"
Fails(e) == e.code = 1 /\ Silent(e) /\ e.err
CliOk(x, e) ==
  CASE e.full -> e.code # 0
    [] x.k = "tok" -> e.code = 0 /\ e.out.k = "tok" /\ e.out.t = x.t
    [] x.k = "pend0" -> Fails(e) /\ e.nurl = 0
    [] x.k \in {"sched", "ok", "none"} -> e.code = 0 /\ Silent(e)
    [] x.k = "err" -> Fails(e)
    [] x.k = "info" -> e.code = 0 /\ e.out.k = "info" /\ e.out.run /\ e.out.hp = PortStr(s.hp) /\ e.out.sp = PortStr(s.sp) /\ e.out.paths /\ (e.out.key \/ IsFree("cert"))
    [] x.k = "status" -> e.code = 0 /\ e.out.k = "status" /\ StatusOk(x.l, e.out.l)
    [] x.k = "dump" -> e.code = 0 /\ e.out.k = "dump" /\ e.out.ver = 1 /\ DumpOk(x.acc, e.out.acc) /\ SealedOk(e.out)
EvCRet(e) ==
  \E y \in s.rets :
    /\ y.id = e.id
    /\ LET r == [s EXCEPT !.rets = @ \ {y}] IN
       IF y.r.k = "pend" THEN Is(Fails(e) /\ e.nurl = 1 /\ Len(e.u) = 1) /\ Is(Bindable(r, y.r.n, e.u[1])) /\ s' = Bind(r, y.r.n, e.u[1])
       ELSE Is(CliOk(y.r, e)) /\ s' = Sealed(r, IF e.full THEN [k |-> "none"] ELSE y.r)
(* without a server (or if it dies before it has replied) *)
EvNCli(e) == /\ ~s.up /\ UNCHANGED s
             /\ IF e.c = "info" THEN e.code = 0 /\ e.out.k = "info" /\ ~e.out.run /\ e.out.paths ELSE Fails(e)
EvUsage(e) == e.code = 1 /\ ~e.out /\ e.err /\ UNCHANGED s

(* Starting: the runtime directory is accessible by its user only.             *)
DirsOk(d) == IsFree("dir") \/ \A i \in 1..Len(d) : d[i] = <<448, TRUE>>
EvSecond(e) == s.up /\ ~s.dying /\ e.code = 1 /\ ~e.out /\ e.err /\ e.sock /\ DirsOk(e.dirs) /\ UNCHANGED s
EvFiles(e) == (IsFree("files") \/ (e.files = <<>> /\ ~e.leak)) /\ UNCHANGED s

(* What the server listens on (e.lst: addresses and ports; e.un: nothing but the control socket otherwise) is what the   *)
(* configuration it was started with says: lsn, "" for none.                                                            *)
ListenOk(e, lsn, hp, sp) ==
  \/ IsFree("lsn")
  \/ LET at(l, p) == {i \in 1..Len(e.lst) : e.lst[i].p = p /\ e.lst[i].h \in Range(U[l].lh) /\ U[l].lp \in {0, p}} IN
       /\ e.un
       /\ Len(e.lst) = Cardinality({i \in 1..2 : lsn[i] # ""})
       /\ \A i, j \in 1..2 : (lsn[i] # "" /\ lsn[j] # "") => \E x \in at(lsn[i], <<hp, sp>>[i]), y \in at(lsn[j], <<hp, sp>>[j]) : x = y <=> i = j
EvListen(e) == Is(s.up => ListenOk(e, s.lsn, s.hp, s.sp)) /\ UNCHANGED s
(* The certificate of the HTTPS server: it has the key which the server reports (e.key), which no earlier one had (e.fresh). *)
EvCert(e) == Is(IsFree("cert") \/ (s.sp # 0 /\ e.key /\ e.fresh /\ e.local)) /\ UNCHANGED s

EvStart(e) ==
  /\ Is(DirsOk(e.dirs))
  /\ Is(Accepted(U, e.ast))
  /\ LET c == Eval(e.ast) IN Is(e.hp # 0 <=> c.http) /\ Is(e.sp # 0 <=> c.https) /\ Is(ListenOk(e, c.lsn, e.hp, e.sp)) /\ Is(e.key = (e.sp # 0) \/ IsFree("cert")) /\ P!StartServer(c, e.hp, e.sp, e.sh)
EvStartFail(e) == /\ Is(~(e.ok /\ Accepted(U, e.ast))) /\ ~s.up /\ UNCHANGED s
                  /\ e.code = 1 /\ e.said /\ ~e.panic

Step(e) ==
  CASE e.e = "Quiet" -> Is(P!Quiet) /\ UNCHANGED s
    [] e.e = "Call" -> EvCall(e)
    [] e.e = "Ret" -> EvRet(e)
    [] e.e = "HCall" -> EvHCall(e)
    [] e.e = "HRet" -> EvHRet(e)
    [] e.e = "HGone" -> EvHGone(e)
    [] e.e = "Post" -> EvPost(e)
    [] e.e = "PostReply" -> EvPostReply(e)
    [] e.e = "PostGone" -> EvPostGone(e)
    [] e.e = "ConnFail" -> EvConnFail
    [] e.e = "Net" -> P!Net(e.up)
    [] e.e = "CmdStart" -> EvCmdStart(e)
    [] e.e = "Logged" -> EvLogged(e)
    [] e.e = "CmdEnd" -> EvCmdEnd(e)
    [] e.e = "CmdKilled" -> EvCmdKilled(e)
    [] e.e = "Advance" -> P!Advance(e.d)
    [] e.e = "Suspend" -> P!Suspend(e.d)
    [] e.e = "Start" -> EvStart(e)
    [] e.e = "StartFail" -> EvStartFail(e)
    [] e.e = "StartKill" -> ~s.up /\ UNCHANGED s
    [] e.e = "CRet" -> EvCRet(e)
    [] e.e = "NCli" -> EvNCli(e)
    [] e.e = "Usage" -> EvUsage(e)
    [] e.e = "Second" -> EvSecond(e)
    [] e.e = "Files" -> EvFiles(e)
    [] e.e = "Listen" -> EvListen(e)
    [] e.e = "Cert" -> EvCert(e)
    [] e.e = "Touch" -> P!Touch
    [] e.e = "Stop" -> P!StopServer
    [] e.e = "Exited" -> s.dying /\ P!StopServer
    [] OTHER -> FALSE

--------------------------------------------------------------------------------
(* Reducing the search: some internal steps commute with everything that can   *)
(* happen before they must have happened at the latest, so that they are taken *)
(* at once.  The recorder tells for every event whether a (successful) reload  *)
(* (wr) or any request (wc) is made from it up to the next moment of quiet,    *)
(* and which token events are run next (number fi + 1 .. fb of Traces[].fes    *)
(* until the next reload or (fs) the end of the server).  Requests to the       *)
(* provider and commands which nobody gives up (Traces[].gone and .killed) do  *)
(* not time out; those given up before the next moment of quiet (pg) do so at  *)
(* once.                                                                       *)
Next1 == Ev[pos + 1]
NoReload == ~Next1.wr /\ \A i \in 1..Len(s.cq) : s.cq[i].c # "reload"
NoRequest == ~Next1.wc /\ s.cq = <<>> /\ s.hreqs = {}
Q == (IF s.ecur # <<>> /\ s.ecur[1].cid = 0 THEN <<[a |-> s.ecur[1].a, ev |-> s.ecur[1].ev]>> ELSE <<>>) \o s.evq
Known == Len(Q) < Next1.fb - Next1.fi
Expected == Traces[tid].fes[Next1.fi + Len(Q) + 1]
RelQ == \A i \in 1..Len(s.cq) : s.cq[i].c # "reload"
MayPush(x) == (RelQ /\ Known) => x = Expected
PushNow(x) == RelQ /\ (IF Known THEN x = Expected ELSE Next1.fs)
MayTime(t) == \E i \in 1..Len(Traces[tid].gone) : Traces[tid].gone[i] = t.pid
GoneNow(t) == \E i \in 1..Len(Next1.pg) : Next1.pg[i] = t.pid
MayKill(c) == \E i \in 1..Len(Traces[tid].killed) : Traces[tid].killed[i] = c
(* With the times of refreshes left open, only those which are seen to be made (rp: the refresh tokens sent, nf: the   *)
(* failures to connect, before the next moment of quiet) are of interest.                                              *)
MayRefresh(a) == IsFree("rt") => LET t == s.st[a].ts IN t.k = "act" /\ (t.rtok = <<>> \/ s.cf + Cardinality(s.refs) < Next1.nf \/ \E i \in 1..Len(Next1.rp) : Next1.rp[i] = t.rtok[1])
Invalid(t) == ~P!Valid(t)
Only(t) == \A u \in s.auths : u = t \/ u.a # t.a \/ Invalid(u)
Soon(t) ==      \* exchange threads whose next step is taken now
  CASE t.ph = "try" -> ~P!Ready(t.sec.token_uri)
    [] t.ph = "sleep" -> P!Mono >= t.t
    [] t.ph = "wait" -> P!Mono >= t.t /\ GoneNow(t)
    [] t.ph = "done" -> Invalid(t) \/ (NoRequest /\ Only(t) /\ P!NotifyAt(t.a) > P!Now)
    [] OTHER -> FALSE
SoonR(t) ==
  CASE t.ph = "try" -> ~P!Ready(t.sec.token_uri)
    [] t.ph = "tcmd" -> ~s.sh
    [] t.ph = "wait" -> P!Mono >= t.t /\ GoneNow(t)
    [] t.ph \in {"done", "tdone"} -> Invalid(t) \/ NoRequest
    [] OTHER -> FALSE
(* A callback request that has no effect now never will have any; and one whose *)
(* code is (surely) exchanged is accepted, with the same effect, at any time.   *)
SoonH(h) ==
  \/ ~h.ok \/ h.st <= 0
  \/ /\ \E i \in 1..Len(s.nonces) : s.nonces[i].obs = h.st
     /\ \/ P!Matching(h) = {}
        \/ (h.sure \/ (~h.err /\ h.code = <<>>))
        \/ LET a == CHOOSE a \in P!Matching(h) : TRUE IN ~RedirMatch(s.conf.acc[a].sec, h, s)
SoonC == s.cq # <<>> /\ ~s.dying /\
  LET c == s.cq[1] IN
    \/ c.ph = "s" /\ (c.c \in {"info", "bad"} \/ (c.c \in {"reload", "restore"} /\ ~c.ok))
    \/ c.ph = "p" /\ Known /\ PushNow([a |-> c.a, ev |-> "token_revoked"])
SoonT == {v \in s.tickets : NoRequest /\ s.st[v[1]].ver = v[2]}

Dropped == [s EXCEPT !.pushes = IF IsFree("ev") THEN P!EmptyBag ELSE @, !.evq = IF IsFree("ev") THEN <<>> ELSE @, !.ecur = IF IsFree("ev") THEN <<>> ELSE @, !.eact = IF IsFree("ev") THEN FALSE ELSE @,
                     !.nerr = IF IsFree("er") THEN P!EmptyBag ELSE @,
                     !.launched = [x \in {x \in DOMAIN @ : ~Loose(x.k)} |-> @[x]]]
Drop == Relaxed # {} /\ Dropped # s

Eager ==
  \/ Drop
  \/ \E t \in s.auths : Soon(t)
  \/ \E t \in s.refs : SoonR(t)
  \/ \E h \in s.hreqs : SoonH(h)
  \/ SoonC
  \/ SoonT # {}
  \/ NoReload /\ (s.nerr # P!EmptyBag \/ (s.eact /\ s.ecur = <<>> /\ s.conf.g.ev # <<>>))
  \/ \E x \in DOMAIN s.pushes : PushNow(x)
EagerStep ==
  CASE Drop -> s' = Dropped
    [] \E t \in s.auths : Soon(t) -> LET t == CHOOSE t \in s.auths : Soon(t) IN P!AuthConnFail(t) \/ P!AuthWake(t) \/ P!AuthTimeout(t) \/ P!AuthDone(t)
    [] \E t \in s.refs : SoonR(t) -> LET t == CHOOSE t \in s.refs : SoonR(t) IN P!RefConnFail(t) \/ P!RefTimeout(t) \/ P!TifCannot(t) \/ P!RefDone(t) \/ P!TifDone(t)
    [] \E h \in s.hreqs : SoonH(h) -> P!HttpSection(CHOOSE h \in s.hreqs : SoonH(h))
    [] SoonC -> P!CtlSection \/ P!CtlPush
    [] \E x \in DOMAIN s.pushes : PushNow(x) -> P!Push(CHOOSE x \in DOMAIN s.pushes : PushNow(x))
    [] NoReload /\ s.nerr # P!EmptyBag -> P!NotifyError(CHOOSE x \in DOMAIN s.nerr : TRUE)
    [] NoReload /\ s.eact /\ s.ecur = <<>> /\ s.conf.g.ev # <<>> -> P!EventPop
    [] OTHER -> P!StartRefresh((CHOOSE v \in SoonT : TRUE)[1])

OtherStep ==
  \/ P!CtlSection
  \/ Is(s.cq # <<>> /\ s.cq[1].ph = "p" => MayPush([a |-> s.cq[1].a, ev |-> "token_revoked"])) /\ P!CtlPush
  \/ \E h \in s.hreqs : P!HttpSection(h)
  \/ \E t \in s.auths : P!AuthConnFail(t) \/ (Is(t.ph = "wait" => MayTime(t)) /\ P!AuthTimeout(t)) \/ P!AuthWake(t) \/ P!AuthDone(t)
  \/ \E x \in DOMAIN s.nerr : P!NotifyError(x)
  \/ \E a \in P!Acc : (Is(MayRefresh(a)) /\ P!TimerDue(a)) \/ P!StartRefresh(a) \/ P!Notify(a)
  \/ \E t \in s.refs : P!RefConnFail(t) \/ (Is(t.ph = "wait" => MayTime(t)) /\ P!RefTimeout(t)) \/ P!RefDone(t) \/ P!TifCannot(t) \/ (Is(t.ph = "trun" => MayKill(t.cid)) /\ P!TifKill(t)) \/ P!TifDone(t)
  \/ \E x \in DOMAIN s.pushes : Is(MayPush(x)) /\ P!Push(x)
  \/ P!EventPop \/ (Is(s.ecur # <<>> => MayKill(s.ecur[1].cid)) /\ P!EventKill)

TInit == tid \in 1..Len(Traces) /\ pos = 0 /\ s = P!Blank
TNext ==
  /\ pos < Len(Ev)
  /\ UNCHANGED tid
  /\ IF s.up /\ Eager THEN pos' = pos /\ EagerStep
     ELSE \/ pos' = pos /\ s.up /\ OtherStep
          \/ pos' = pos + 1 /\ Step(Ev[pos + 1])

TSpec == TInit /\ [][TNext]_<<tid, pos, s>>

(* Progress; once a trace has been explained completely, no other explanation is sought. *)
Note == /\ TLCGet(tid) < Len(Ev)
        /\ IF pos > TLCGet(tid) THEN TLCSet(tid, pos) ELSE TRUE
        /\ IF pos = Len(Ev) THEN PrintT(<<"ACC", tid>>) ELSE TRUE
InitRegs == \A i \in 1..Len(Traces) : TLCSet(i, 0)
ASSUME InitRegs
Report == PrintT(<<"HWM", [i \in 1..Len(Traces) |-> TLCGet(i)]>>)

TypeOK == P!TypeOK \/ ~s.up
================================================================================
