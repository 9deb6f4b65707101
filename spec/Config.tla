-------------------------------- MODULE Config --------------------------------
(* Meaning of pizauth configuration files.                                    *)
(* A file is represented by its syntax tree: a sequence of nodes              *)
(*   [o: option name, k: "s" string | "t" time | "n" none | "l" list |        *)
(*    "m" map | "a" account | "x" ungrammatical text, ...].                   *)
(* Strings are sequences of chunks: either plain text or one escape (\" \\).  *)
(* U maps URI-like strings to how a URL parser sees them (given).             *)
EXTENDS Integers, Sequences, FiniteSets

INF == 2000000000          \* cap for times; INF itself still is representable
MAXT == INF + 1            \* a time that no clock value can be increased by
NONE == -1

StrTop  == {"auth_notify_cmd", "error_notify_cmd", "transient_error_if_cmd", "token_event_cmd", "http_listen", "https_listen"}
TimeTop == {"auth_notify_interval", "refresh_at_least", "refresh_before_expiry", "refresh_retry"}
NoneTop == {"http_listen", "https_listen"}
StrAct  == {"auth_uri", "client_id", "client_secret", "login_hint", "redirect_uri", "token_uri"}
TimeAct == {"refresh_at_least", "refresh_before_expiry", "refresh_retry"}
UriAct  == {"auth_uri", "redirect_uri", "token_uri"}

UnescChunk(c) == IF c = "\\\"" THEN "\"" ELSE IF c = "\\\\" THEN "\\" ELSE c
RECURSIVE Unesc(_)
Unesc(cs) == IF cs = <<>> THEN "" ELSE UnescChunk(Head(cs)) \o Unesc(Tail(cs))

Unit(u) == CASE u = "s" -> 1 [] u = "m" -> 60 [] u = "h" -> 3600 [] u = "d" -> 86400
TimeOk(n) == /\ n.k = "t"
             /\ n.big # "u64"
             /\ (n.big = "max" => n.u = "s")
TimeVal(n) == IF n.big = "max" THEN MAXT
              ELSE IF n.big # "no" THEN INF
              ELSE IF n.n > INF \div Unit(n.u) THEN INF ELSE n.n * Unit(n.u)

Names(nodes) == {nodes[i].o : i \in 1..Len(nodes)}
NoRepeat(nodes) == \A i, j \in 1..Len(nodes) : i # j => nodes[i].o # nodes[j].o
Node(nodes, o) == nodes[CHOOSE i \in 1..Len(nodes) : nodes[i].o = o]
Has(nodes, o) == o \in Names(nodes)
Opt(nodes, o) == IF Has(nodes, o) THEN <<Unesc(Node(nodes, o).v)>> ELSE <<>>
OptT(nodes, o) == IF Has(nodes, o) THEN TimeVal(Node(nodes, o)) ELSE NONE

ActNodeOk(U, n) ==
  \/ /\ n.o \in StrAct /\ n.k = "s"
     /\ n.o \in UriAct => (Unesc(n.v) \in DOMAIN U /\ U[Unesc(n.v)].ok)
  \/ n.o \in TimeAct /\ TimeOk(n)
  \/ n.o = "scopes" /\ n.k = "l"
  \/ n.o = "auth_uri_fields" /\ n.k = "m"

FieldsOf(f) == IF Has(f, "auth_uri_fields") THEN LET v == Node(f, "auth_uri_fields").v IN [i \in 1..Len(v) |-> <<Unesc(v[i][1]), Unesc(v[i][2])>>] ELSE <<>>

RedirectOf(f) == IF Has(f, "redirect_uri") THEN Unesc(Node(f, "redirect_uri").v) ELSE "http://localhost/"

AccountOk(U, f) ==
  /\ \A i \in 1..Len(f) : ActNodeOk(U, f[i])
  /\ NoRepeat(f)
  /\ {"auth_uri", "client_id", "token_uri"} \subseteq Names(f)
  /\ Has(f, "login_hint") => \A i \in 1..Len(FieldsOf(f)) : FieldsOf(f)[i][1] # "login_hint"

TopNodeOk(U, n) ==
  \/ n.o \in StrTop /\ n.k = "s"
  \/ n.o \in TimeTop /\ TimeOk(n)
  \/ n.o \in NoneTop /\ n.k = "n"
  \/ n.o = "account" /\ n.k = "a" /\ AccountOk(U, n.f)

Accounts(ast) == {i \in 1..Len(ast) : ast[i].o = "account"}
Off(ast, o) == Has(ast, o) /\ Node(ast, o).k = "n"

(* The file is well-formed (C18).                                             *)
Accepted(U, ast) ==
  /\ \A i \in 1..Len(ast) : TopNodeOk(U, ast[i])
  /\ NoRepeat(SelectSeq(ast, LAMBDA n : n.o # "account"))
  /\ Accounts(ast) # {}
  /\ ~(Off(ast, "http_listen") /\ Off(ast, "https_listen"))
  /\ \A i \in Accounts(ast) :
       LET r == U[RedirectOf(ast[i].f)] IN
         /\ r.ishttps => ~Off(ast, "https_listen")
         /\ (r.ishttp /\ ~r.ishttps) => ~Off(ast, "http_listen")

AccountOf(f) ==
  [sec |-> [auth_uri |-> Unesc(Node(f, "auth_uri").v),
            fields |-> FieldsOf(f) \o (IF Has(f, "login_hint") THEN << <<"login_hint", Unesc(Node(f, "login_hint").v)>> >> ELSE <<>>),
            client_id |-> Unesc(Node(f, "client_id").v),
            secret |-> Opt(f, "client_secret"),
            redirect |-> RedirectOf(f),
            scopes |-> IF Has(f, "scopes") THEN LET v == Node(f, "scopes").v IN [i \in 1..Len(v) |-> Unesc(v[i])] ELSE <<>>,
            token_uri |-> Unesc(Node(f, "token_uri").v)],
   rbe |-> OptT(f, "refresh_before_expiry"),
   ral |-> OptT(f, "refresh_at_least"),
   rr |-> OptT(f, "refresh_retry")]

ListenOn(ast, o) == IF ~Has(ast, o) THEN "127.0.0.1:0" ELSE IF Off(ast, o) THEN "" ELSE Unesc(Node(ast, o).v)

(* The effect of an accepted file.                                            *)
Eval(ast) ==
  [acc |-> [a \in {Unesc(ast[i].name) : i \in Accounts(ast)} |->
              AccountOf(ast[CHOOSE i \in Accounts(ast) : Unesc(ast[i].name) = a /\ \A j \in Accounts(ast) : Unesc(ast[j].name) = a => j <= i].f)],
   g |-> [nc |-> Opt(ast, "auth_notify_cmd"),
          ec |-> Opt(ast, "error_notify_cmd"),
          tc |-> Opt(ast, "transient_error_if_cmd"),
          ev |-> Opt(ast, "token_event_cmd"),
          iv |-> IF Has(ast, "auth_notify_interval") THEN OptT(ast, "auth_notify_interval") ELSE 900,
          rbe |-> OptT(ast, "refresh_before_expiry"),
          ral |-> OptT(ast, "refresh_at_least"),
          rr |-> OptT(ast, "refresh_retry")],
   lsn |-> <<ListenOn(ast, "http_listen"), ListenOn(ast, "https_listen")>>,
   http |-> ~Off(ast, "http_listen"),
   https |-> ~Off(ast, "https_listen")]

Eff(x, y, d) == IF x # NONE THEN x ELSE IF y # NONE THEN y ELSE d
EffRbe(c, a) == Eff(c.acc[a].rbe, c.g.rbe, 90)
EffRal(c, a) == Eff(c.acc[a].ral, c.g.ral, 5400)
EffRr(c, a)  == Eff(c.acc[a].rr, c.g.rr, 40)
================================================================================
