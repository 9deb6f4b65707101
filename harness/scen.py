"""Scenario families.  A scenario is a function f(w: Sim) which drives the server; everything observed is recorded in w.ev.
Expectations live in the specification only."""
import random, struct
import gen
from sim import *

DIRECTED = {}          # name -> (function, properties, options)


def directed(props, gates=False, shell=True, **kw):
    def dec(f):
        DIRECTED[f.__name__] = (f, props.split(), dict(gates=gates, shell=shell, **kw))
        return f
    return dec


# ------------------------------------------------------------------------------------------------ account variants
SECV = {0: {}, 1: dict(auth_uri="http://prov.example/auth2"), 2: dict(fields=(("k1", "v1"), ("k2", "w2"))), 3: dict(cid="cid-other"), 4: dict(secret="secret-other"),
        5: dict(secret=None), 6: dict(redirect="http://localhost/other"), 7: dict(scopes=("s1", "s3")), 8: dict(tok="/other"),
        9: dict(fields=(("k2", "v2"), ("k1", "v1"))), 10: dict(login_hint="me@example.com"), 11: dict(scopes=()), 12: dict(fields=()),
        13: dict(redirect="https://localhost/x"), 14: dict(scopes=("s2", "s1")), 15: dict(redirect="http://127.0.0.1/x"), 16: dict(auth_uri="http://prov.example/auth?state=q&a=b"),
        17: dict(scopes=("s1 s2",)), 18: dict(fields=(("k1", "v1"), ("k2", "v2"), ("k2", "v2")))}


def sx(w, name, v=0, **kw):
    d = dict(auth_uri="http://prov.example/auth", fields=(("k1", "v1"), ("k2", "v2")), cid="cid-" + name, secret="secret-of-" + name, redirect="http://localhost/x",
             scopes=("s1", "s2"), tok="/" + "".join(c for c in name if c.isalnum()))
    d.update(SECV[v]); d.update(kw)
    return acct(w, name, **d)


ALLCMD = dict(notify="N", err="R", event="V", tif="T")


# ------------------------------------------------------------------------------------------------ directed: authorisation
@directed("C04 C05 C03 C11")
def auth_basic(w):
    w.go(sx(w, "x"), sx(w, "y", redirect="https://localhost/y", secret=None, scopes=()), acct(w, "z", secret="secret-of-z"), **ALLCMD)
    for a in "xyz":
        w.ask(a); w.ask(a); w.show(a, url=False); w.q(); w.endall()
    for a in "zyx":
        w.callback(w.nonce(a), code="c/o d&e=" + a); w.q()
    for a in "xyz": w.show(a)
    w.q()
    for p in list(w.posts): w.reply(p, w.tok(rtok=p % 2 == 0)); w.q()
    for a in "xyz": w.show(a); w.q()
    w.endall(); w.probe()


@directed("C04 C03")
def auth_fresh(w):
    """Every request has new state and challenge."""
    w.go(sx(w, "x"), sx(w, "y", 13), sx(w, "z", 16), notify="N", err="R")
    for i in range(4):
        for a in "xyz": w.ask(a, "refresh")
        for a in "xyz": w.ask(a)
        w.endall()
    for n in sorted(w.nstates): w.callback(n, code=f"stale{n}"); w.q()
    w.replyall()
    w.probe()
    for a in "xyz": w.revoke(a); w.q(); w.ask(a)
    w.endall()


@directed("C03 C19")
def cb_matrix(w):
    w.go(sx(w, "x"), sx(w, "y", 13), acct(w, "z", redirect="http://127.0.0.1/z"), err="R", notify="N")
    for a in "xyz": w.ask(a)
    w.endall()
    port = {"x": w.http_port, "y": w.https_port, "z": w.http_port}
    for a in "xyz":
        n = w.nonce(a)
        https = a == "y"
        w.callback(n, https=https, host={"x": "localhost", "y": "localhost", "z": "127.0.0.1"}[a]); w.q()           # neither code nor error
        w.callback(n, code="c1", https=https, host="evil.example"); w.q()
        w.callback(n, code="c2", https=https, port=port[a] + 1, host="localhost" if a != "z" else "127.0.0.1"); w.q()
        w.callback(n, code="c3", https=https, port=0, host="localhost" if a != "z" else "127.0.0.1"); w.q()
        w.callback(n, error="denied1", https=https, host="evil.example"); w.q()
        w.callback(n, error="denied2", https=https, port=port[a] + 1, host="localhost" if a != "z" else "127.0.0.1"); w.q()
        w.callback(n, code="c4", https=not https, host="localhost" if a != "z" else "127.0.0.1"); w.q()                # wrong scheme
        w.callback(n, error="denied3", https=not https, host="localhost" if a != "z" else "127.0.0.1"); w.q()
        w.callback(n, code="c5", https=not https, port=port[a], host="localhost" if a != "z" else "127.0.0.1"); w.q()
        w.callback(0, state="", code="c6"); w.q()
        w.callback(0, state="nosuchstate", code="c7"); w.q()
        w.callback(0, state="nosuchstate", error="denied4"); w.q()
        w.callback(0, state="", error="denied5"); w.q()
        w.callback(n, code="c8", method="POST"); w.q()
        w.callback(n, code="c9", method="PUT"); w.q()
        st = w.nstates[n]
        w.callback(0, state=st[:-1], code="c10"); w.q()
        w.callback(0, state=st + "A", code="c11"); w.q()
        w.callback(0, state=st.swapcase(), code="c12"); w.q()
        w.probe(False)
        assert not w.posts or True
    w.probe()
    for a in "xyz": w.callback(w.nonce(a), code="good-" + a); w.q()
    w.replyall(); w.probe()
    for n in sorted(w.nstates): w.callback(n, code="late"); w.q(); w.callback(n, error="late"); w.q()
    w.endall(); w.probe()


@directed("C03 C14 C04")
def cb_product(w):
    """Callbacks in every combination of server, host, port and contents: only those matching the redirect URI count."""
    w.go(sx(w, "x"), sx(w, "y", 13), acct(w, "z", redirect="http://127.0.0.1/z"), **ALLCMD)
    c = [(a, kind, https, port, host) for a in "xyz" for kind in ("code", "error", "both") for https in (False, True) for port in ("http", "https", 0, 80) for host in ("localhost", "127.0.0.1", "localhost.")]
    w.rng.shuffle(c)
    for k, (a, kind, https, port, host) in enumerate(c):
        w.ask(a); w.endall()
        w.callback(w.nonce(a), code=f"code{k}" if kind != "error" else None, error=f"why{k}" if kind != "code" else None, https=https, host=host,
                   port={"http": w.http_port, "https": w.https_port}.get(port, port))
        w.q(); w.endall()
        if w.posts: w.reply(w.post("auth") or 0, w.tok(900)); w.q(); w.revoke(a); w.q(); w.endall()
    w.probe(); w.endall()


ERRS = ["invalid_request", "invalid_client", "invalid_grant", "unauthorized_client", "unsupported_grant_type", "unsupported_response_type", "invalid_scope", "access_denied",
        "server_error", "temporarily_unavailable", "slow_down", "authorization_pending", "expired_token", "interaction_required", "login_required", "consent_required", "", "no such"]
CODES = [400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 418, 421, 422, 425, 429, 431, 451, 499, 500, 501, 502, 503, 504, 507, 511, 529, 599]


@directed("C08 C12 C14")
def oauth_errors(w):
    """The error codes of OAuth and the status codes of HTTP, for refreshes, exchanges and callbacks."""
    w.go(sx(w, "x", rr=7), sx(w, "y", 5, rr=7), **ALLCMD)
    full = {"access_token": "tok-with-error-1", "token_type": "Bearer", "expires_in": 3600, "refresh_token": "rt-with-error-1"}
    rs = [EJSON(e) for e in ERRS] + [EJSON(e, extra=full) for e in ERRS[::4]] + [STATUS(c) for c in CODES] + [EJSON(e, status=w.rng.choice([400, 401, 403, 500, 503])) for e in ERRS]
    for k, r in enumerate(rs):
        for a in "xy"[:1 + (k % 3 == 0)]:
            w.get(a, 1000); w.endall(); w.refresh(a); w.q(); w.reply(w.post() or 0, r); w.q(); w.endall()
            if k % 5 == 0: w.fwd(8); w.replyall(lambda: w.tok(500)); w.endall()
            w.auth(a); w.endall(); w.reply(w.post("auth") or 0, r); w.q(); w.endall()
        if k < len(ERRS): w.ask("y"); w.callback(w.nonce("y"), error=ERRS[k], code="c" if k % 2 else None); w.q(); w.endall()
        if k % 10 == 0: w.probe(False)
    w.probe(); w.replyall(); w.endall()


@directed("C14 C08 C19")
def odd_reasons(w):
    """Reasons for failures that are long, or consist of characters that are not ASCII or not printable, in every place they can come from."""
    w.go(sx(w, "x", rr=7), sx(w, "y", 5, rr=7), **ALLCMD)
    ts = ["z" * k + "\u20ac" * n for k, n in ((0, 300), (1, 300), (2, 300), (1, 3000))] + ["e" * 20000, "f" * 140000, "\U0001f600" * 40000, "g\0h", "\0", "\x01\x7f\x1b[31m", "a\nb\r\nc", "\u202e\u0301\ufffd", "\ud7ff\ue000\uffff",
          "'; echo \\ \"$(id)\" `x` %s %n {} {0}"]
    for k, t in enumerate(ts):
        rs = [STATUS(400, t), BAD(t), EJSON("why%d" % k, extra={"error_description": t}), BAD(json.dumps({"access_token": t})), EJSON("odd%d" % k + t)]
        for i, r in enumerate(rs if k < 2 or len(t) < 100 else w.rng.sample(rs, 2)):
            w.auth("x"); w.endall(); w.reply(w.post("auth") or 0, r); w.q(); w.endall()
            if i == k % 5: w.get("y", 1000); w.endall(); w.refresh("y"); w.q(); w.reply(w.post() or 0, r); w.q(); w.endall()
        if len(t) < 5000:
            w.ask("y"); w.callback(w.nonce("y"), error=t, code="c" if k % 2 else None); w.q(); w.endall()
        w.probe(False)
    w.re(sx(w, "x"), sx(w, "y"), event="V"); w.q()            # the same are logged
    for k, t in enumerate(ts):
        w.auth("x"); w.reply(w.post("auth") or 0, STATUS(401, t)); w.q()
        w.status(); w.q()
    w.probe(); w.replyall(); w.endall()


@directed("C03")
def cb_variants(w):
    """Well-formed callbacks in unusual but valid shapes."""
    w.go(sx(w, "x"), sx(w, "y", 13), err="R")
    for k, kw in enumerate([dict(extra=[("session_state", "q"), ("z", "")]), dict(order=[1, 0]), dict(path="/elsewhere"), dict(hdr=b"X-A: b\r\nAccept: */*\r\n"), dict(host="LOCALHOST")]):
        a = "xy"[k % 2]
        w.ask(a); w.callback(w.nonce(a), code="code%d" % k, **kw); w.q(); w.replyall(); w.show(a); w.q(); w.revoke(a); w.q()
    for k, kw in enumerate([dict(error="access_denied"), dict(error="denied/x y", code="c"), dict(error="", code=None)]):
        w.ask("x"); w.callback(w.nonce("x"), **kw); w.q(); w.endall(); w.probe(False)
    w.ask("x"); n = w.nonce("x")
    w.callback(n, code="first"); w.callback(n, code="second"); w.q()
    w.probe()
    ps = sorted(w.posts)
    for p in ps: w.reply(p, w.tok()); w.q()
    w.probe()


@directed("C14 C11 C01")
def auth_fail_kinds(w):
    w.go(sx(w, "x"), sx(w, "y"), **ALLCMD)
    for k, r in enumerate([EJSON("invalid_grant_why"), STATUS(500), STATUS(400, '{"error": "bad"}'), STATUS(404), BAD("not json"), BAD("{}"), BAD('{"access_token": 5}'), BAD(""),
                           BAD('{"access_token": "a", "token_type": "mac", "expires_in": 5}'), BAD('{"access_token": "abc", "token_type": "Bearer"}'), TRUNC("truncbody"),
                           BAD(b"\xff\xfe{}"), STATUS(503), BAD('{"error": 5}'), BAD('{"token_type": "Bearer", "expires_in": 600}'), BAD("[]"), BAD('{"expires_in": 3600}')]):
        n = w.auth("x"); w.endall()
        w.reply(w.post("auth"), r); w.q()
        w.status(); w.q(); w.endall()
        w.callback(n, code="again%d" % k); w.q()
        w.ask("x"); w.endall()
        w.show("y"); w.q()
        w.revoke("x"); w.q(); w.endall()
    n = w.ask("x"); w.endall()
    w.callback(n, error="access_denied_by_user"); w.q(); w.endall()
    w.callback(n, code="late"); w.q(); w.callback(n, error="late2"); w.q(); w.endall()
    w.probe(); w.endall()


@directed("C14 C11")
def auth_conn_fail(w):
    w.go(sx(w, "x"), sx(w, "y"), **ALLCMD)
    w.ask("x"); w.endall(); w.net(False)
    w.callback(w.nonce("x"), code="c1"); w.q()
    for i in range(3): w.fwd(6)
    w.net(True); w.fwd(6)                    # now it gets through
    w.reply(w.post("auth"), w.tok()); w.q(); w.endall(); w.probe()
    w.ask("y"); w.endall()
    w.callback(w.nonce("y"), code="c2"); w.q()
    for i in range(9):
        p = w.post("auth")
        if i % 3 == 0: w.reply(p, NET(["close", "rst", "garbage"][i // 3 % 3]))
        elif i % 3 == 1: w.fwd(31)
        else: w.reply(p, NET("trunchead"))
        w.q(); w.fwd(6)
    w.reply(w.post("auth"), w.tok(rtok=None)); w.q(); w.endall(); w.probe()


@directed("C14 C01")
def auth_conn_ten(w):
    w.go(sx(w, "x"), sx(w, "y", 0, tok_uri="http://nowhere.invalid/t"), **ALLCMD)
    for a in "xy":
        w.ask(a); w.endall()
        if a == "x": w.net(False)
        n = w.nonce(a)
        w.callback(n, code="c1"); w.q()
        for i in range(11):
            if i == 4: w.callback(n, code="c2"); w.q()
            w.fwd(6)
            if i == 2: w.status(); w.q()
        w.endall(); w.probe(); w.endall()
        w.net(True)
        w.callback(n, code="c3"); w.q()
        w.fwd(60); w.endall(); w.probe(False)


@directed("C11 C10")
def auth_reminder(w):
    w.go(sx(w, "x"), sx(w, "y"), interval=10, **ALLCMD)
    w.auth("x")
    for i in range(3): w.endall(kinds=["auth"]); w.advance(11); w.q()
    w.reply(w.post("auth") or 0, w.tok()); w.q()
    w.probe()
    for p in list(w.posts): w.reply(p, w.tok()); w.q()
    w.probe()


@directed("C11 C02 C17")
def auth_unrelated(w):
    """Things that must not disturb an exchange in progress."""
    w.go(sx(w, "x"), sx(w, "y"), interval=10, **ALLCMD)
    w.auth("x"); w.auth("y")
    w.re(sx(w, "x", rbe=7, ral=1000, rr=3), sx(w, "y"), sx(w, "z"), interval=20, notify="N2"); w.q()
    w.advance(5); w.q()
    w.reply(w.post("auth"), STATUS(500)); w.q()            # y fails
    w.get("z")
    w.re(sx(w, "x"), sx(w, "z"), event="V2", err="R2"); w.q()
    w.revoke("z"); w.q(); w.reload(None, missing=True); w.q(); w.reload(None, text="account {"); w.q()
    w.restore(w.forge({"x": None, "z": ("ztok-12345", "zr-12345", 500)})); w.q()
    w.advance(5); w.q()
    w.replyall(lambda: w.tok(700))
    w.endall(); w.probe()


@directed("C11 C04 C14")
def auth_expiry_values(w):
    """Expiry values in replies, including ones no clock can represent."""
    w.go(sx(w, "x"), sx(w, "y", ral=500), acct(w, "z", extra=[T("refresh_at_least", 0, "s", "max")]), **ALLCMD)
    for e in [1, 0, 59, 10 ** 9, 10 ** 12, 2 ** 62, 2 ** 63 - 1, 2 ** 64 - 1]:
        for a in "xyz":
            w.auth(a); w.reply(w.post("auth"), w.tok(e)); w.q()
        w.endall(); w.status(); w.q(); w.dump(); w.q()
        for a in "xyz": w.show(a)
        w.q(); w.replyall(lambda: w.tok(rtok=None)); w.endall()
        w.fwd(1)
        for a in "xyz": w.revoke(a)
        w.q(); w.endall(); w.replyall()


# ------------------------------------------------------------------------------------------------ directed: show
@directed("C05 C21")
def show_expiry(w):
    w.go(sx(w, "x", rbe=0), sx(w, "y", rbe=5), sx(w, "z", rbe=0, rr=1000), event="V")
    w.get("x", 20); w.get("y", 20, None); w.get("z", 20); w.endall()
    w.show("nosuch"); w.q(); w.show(""); w.q(); w.show("x "); w.q(); w.show("X"); w.q()
    for i in range(26):
        w.fwd(1)
        for a in "xyz": w.show(a); w.q()
        w.status(); w.q()
        if i == 22: w.replyall(lambda: NET("rst"))
    w.endall(); w.probe()
    w.fwd(40); w.replyall(); w.endall(); w.probe()


@directed("C05 C01 C21")
def show_multi(w):
    names = ["a", "a b", "ab", "A", "\u00fc"]
    w.go(*[sx(w, n, cid="same", secret="same-secret", tok="/same") for n in names], event="V")
    for n in names: w.get(n); w.endall()
    w.probe()
    w.revoke(names[1]); w.q(); w.endall(); w.probe()
    w.refresh(names[2]); w.refresh(names[3]); w.q(); w.replyall(lambda: w.tok(100)); w.endall(); w.probe()
    w.auth(names[1]); w.re(*[sx(w, n, cid="same", secret="same-secret", tok="/same") for n in names[1:]], event="V"); w.q(); w.replyall(); w.endall(); w.probe()
    w.show(names[0]); w.q()


# ------------------------------------------------------------------------------------------------ directed: refresh
@directed("C06 C07 C08")
def refresh_overlap(w):
    w.go(sx(w, "x", rr=5, rbe=10, ral=10 ** 6), **ALLCMD)
    w.get("x", 60); w.endall()
    for i in range(3):
        for _ in range(3): w.refresh("x")
        w.q(); w.refresh("x"); w.q(); w.show("x"); w.q()
        w.fwd(6); w.refresh("x"); w.q(); w.fwd(7)
        w.re(sx(w, "x", rr=1 + i, rbe=50, ral=10 ** 6), **ALLCMD); w.q()
        w.refresh("x"); w.q(); w.fwd(10)
        w.reply(w.post(), NET("rst") if i == 1 else w.tok(60)); w.q(); w.endall(); w.probe()
        w.fwd(61); w.show("x"); w.show("x"); w.show("x"); w.q(); w.refresh("x"); w.show("x"); w.q()
        w.replyall(lambda: w.tok(60)); w.endall(); w.probe()


@directed("C05 C06 C07")
def show_midrefresh(w):
    """Tokens which expire while a refresh that began before the expiry is still going on, and then the outcomes of it."""
    w.go(sx(w, "x", rbe=10), sx(w, "y", rbe=25, rr=3), sx(w, "z", rbe=3), **ALLCMD)
    for how in (lambda: w.tok(60), lambda: NET("rst"), lambda: w.tok(60, rtok=None), lambda: STATUS(400), None):
        for a in "xyz": w.get(a, 60); w.endall()
        w.fwd(34)
        for d in (1, 15, 1, 7, 1, 1, 1, 1, 1):
            w.fwd(d)
            for a in "xyz": w.show(a); w.show(a, False); w.q()
            w.status(); w.q()
        if how: w.replyall(how)
        w.endall(); w.probe(); w.fwd(31); w.replyall(lambda: w.tok(60)); w.endall(); w.probe()
        for a in "xyz": w.refresh(a); w.revoke(a); w.q(); w.replyall(); w.endall()
    w.refresh("x"); w.q()


@directed("C06 C09 C07")
def refresh_during_tif(w):
    w.go(sx(w, "x", rr=5, rbe=10), **ALLCMD)
    w.get("x", 60); w.endall(); w.fwd(50)
    for i in range(6):
        w.reply(w.post(), NET("close")); w.q()
        if i < 5: w.fwd(5)
    for i in range(5):
        w.refresh("x"); w.q(); w.show("x"); w.q(); w.fwd(7)
        w.re(sx(w, "x", rr=5 + i, rbe=10), **ALLCMD); w.q()
        w.status(); w.q()
    w.endall(0, ["tif"])
    w.show("x"); w.q(); w.refresh("x"); w.q(); w.replyall(lambda: w.tok(100)); w.endall(); w.probe()


@directed("C08 C07 C12")
def refresh_kinds(w):
    w.go(sx(w, "x", rr=7), sx(w, "y", 5, rr=7), acct(w, "z", secret="a&b=c d", cid="c i/d", rr=7, tok="/z?q=1"), **ALLCMD)
    for r in [None, NET("close"), NET("rst"), TRUNC("truncbody"), NET("trunchead"), NET("garbage"), STATUS(500), STATUS(400, '{"error": "invalid_grant"}'), STATUS(429), EJSON("invalid_grant"),
              BAD("x"), BAD("{}"), BAD('{"access_token": "q1234567", "token_type": "Bearer"}'), BAD('{"access_token": "q", "expires_in": 10}'), BAD('{"access_token": "q", "token_type": "Bearer", "expires_in": -1}'),
              BAD('{"access_token": "q", "token_type": "Bearer", "expires_in": "x"}'), BAD('null'), "t31", "dns"]:
        for a in "xyz": w.get(a, 1000)
        w.endall()
        for a in "xyz":
            if r == "dns": w.net(False)
            w.refresh(a); w.q()
            if r == "t31": w.fwd(31)
            elif r == "dns": w.net(True)
            elif r is None: w.reply(w.post(), w.tok(500, rtok=a != "y"))
            else: w.reply(w.post(), r)
            w.q()
        w.endall(); w.probe(False)
        for a in "xyz": w.show(a)
        w.q(); w.endall()
        w.fwd(8); w.replyall(lambda: w.tok(500, None)); w.endall(); w.probe(False)
        w.refresh("x"); w.q(); w.replyall(lambda: w.tok(500)); w.endall()
        for a in "xyz": w.revoke(a)
        w.q(); w.endall()


@directed("C08 C12 C07")
def refresh_no_rtok(w):
    w.go(sx(w, "x"), sx(w, "y", ral=50), **ALLCMD)
    w.get("x", 500, None); w.get("y", 500, None); w.endall()
    w.fwd(49); w.probe(False); w.fwd(1); w.endall(); w.probe(False); w.endall()
    w.fwd(360); w.endall(); w.probe(False)
    w.revoke("y"); w.q(); w.get("y", 500, None); w.endall(); w.refresh("y"); w.q(); w.endall(); w.probe(False); w.endall()
    w.get("x", 100, None); w.endall(); w.fwd(101); w.show("x"); w.q(); w.endall(); w.show("x"); w.q(); w.endall()


@directed("C08")
def refresh_rotation(w):
    """The refresh token used is always the latest one."""
    w.go(sx(w, "x"), sx(w, "y", 5))
    w.get("x"); w.get("y")
    for i in range(8):
        for a in "xy":
            w.refresh(a); w.q()
            w.reply(w.post(), w.tok(400 + i, rtok=i % 3 == 0)); w.q()
        w.fwd(3)
        w.probe(False)
        for a in "xy": w.show(a)
        w.q()


def _sched(w, name, ein, glob, acc, seq):
    """Exercise the refresh schedule around each of its deadlines."""
    g = dict(zip(("rbe", "ral", "rr"), glob)); a = dict(zip(("rbe", "ral", "rr"), acc))
    eff = [x if x is not None else y if y is not None else d for x, y, d in zip(acc, glob, (90, 5400, 40))]
    w.go(sx(w, name, **a), event="V", **g)
    w.get(name, ein); w.endall()
    rbe, ral, rr = eff
    for k in seq:
        due = min(ein - rbe, ral)
        if due > 2: w.fwd(due - 2); w.fwd(1); w.fwd(1)
        elif due > 0: w.fwd(due)
        if w.post() is None: w.fwd(1)
        if k == "ok":
            if w.post() is None: w.fwd(1)
            w.reply(w.post() or 0, w.tok(ein, rtok=None)); w.q(); w.endall()
            continue
        if k == "netrr":
            w.fwd(3)
            w.reply(w.post() or 0, NET("rst")); w.q()
        elif k == "timeout": w.fwd(29); w.fwd(1); w.fwd(1)
        if rr > 1: w.fwd(rr - 1)
        w.fwd(1)
        if w.post() is None: w.fwd(1)
        w.reply(w.post() or 0, w.tok(ein, None)); w.q(); w.endall()
    w.probe()


SCHED = [(None, None, None), (10, 300, 5), (0, 10 ** 7, 3), (3500, 10 ** 7, 60)]


@directed("C07")
def sched_default(w): _sched(w, "x", 3600, SCHED[0], SCHED[0], ["ok", "netrr", "timeout"])


@directed("C07")
def sched_global(w): _sched(w, "x", 3600, SCHED[1], SCHED[0], ["ok", "netrr", "ok"])


@directed("C07")
def sched_account(w): _sched(w, "x", 1000, SCHED[1], SCHED[2], ["ok", "netrr", "timeout"])


@directed("C07")
def sched_ral(w): _sched(w, "x", 10 ** 5, (None, None, 50), (None, 200, None), ["ok", "timeout", "netrr", "ok"])


@directed("C07 C17")
def sched_reload(w):
    """Changed settings apply at once, in both directions, also to retries."""
    w.go(sx(w, "x"), sx(w, "y"), event="V")
    w.get("x", 3600); w.get("y", 7200); w.endall()
    w.fwd(1000)
    w.re(sx(w, "x", rbe=2000), sx(w, "y"), event="V"); w.q(); w.fwd(599); w.fwd(1)
    w.replyall(lambda: w.tok(3600)); w.endall()
    w.re(sx(w, "x", rbe=10, ral=10), sx(w, "y"), event="V"); w.q(); w.fwd(9); w.fwd(1); w.reply(w.post() or 0, w.tok(3600)); w.q(); w.endall()
    w.re(sx(w, "x"), sx(w, "y", ral=100), event="V", ral=20); w.q()
    w.replyall(lambda: w.tok(3600)); w.endall()
    w.fwd(19); w.fwd(1); w.replyall(lambda: w.tok(3600)); w.endall()
    w.re(sx(w, "x", rr=100), sx(w, "y"), event="V", rr=50); w.q()
    w.refresh("x"); w.refresh("y"); w.q(); w.replyall(lambda: NET("rst")); w.fwd(49); w.fwd(1)
    w.replyall(lambda: w.tok(3600)); w.endall()
    w.re(sx(w, "x", rr=60), sx(w, "y"), event="V", rr=50); w.q(); w.fwd(9); w.fwd(1)
    w.replyall(lambda: w.tok(3600)); w.endall(); w.probe()
    w.refresh("x"); w.q(); w.replyall(lambda: NET("rst"))
    w.re(sx(w, "x", rr=1000), sx(w, "y"), event="V"); w.q(); w.fwd(999)
    w.re(sx(w, "x", rr=5), sx(w, "y"), event="V"); w.q(); w.replyall(); w.endall(); w.probe()


@directed("C07 C11")
def sched_big(w):
    """Settings and expiries around the largest representable times."""
    w.go(sx(w, "x", extra=[T("refresh_before_expiry", 0, "s", "max")]), sx(w, "y", extra=[T("refresh_at_least", 0, "s", "max")]), sx(w, "z", extra=[T("refresh_before_expiry", 0, "d", "huge")]), event="V")
    for a in "y": w.get(a, 3600); w.endall()
    w.fwd(3509); w.fwd(1); w.reply(w.post() or 0, w.tok(10 ** 12)); w.q(); w.endall(); w.fwd(10 ** 6); w.probe()
    w.replyall(lambda: w.tok(100)); w.fwd(10 ** 5); w.probe()


@directed("C19 C07 C08 C14")
def expiry_extreme(w):
    """Lifetimes that may not be representable, with settings that are not, either."""
    w.go(sx(w, "x"), sx(w, "y", extra=[T("refresh_at_least", 0, "s", "max")]), **ALLCMD)
    for a in "xy":
        for i, e in enumerate((2 ** 62, 2 ** 63 - 1 - 10 ** 10, 2 ** 63, 2 ** 64 - 1)):
            if i != 3: w.get(a, e)
            else: w.revoke(a); w.get(a, 60); w.refresh(a); w.q(); w.reply(w.post() or 0, w.tok(e)); w.q()
            w.endall(); w.probe(); w.fwd(3)
            if i % 2: w.revoke(a); w.q(); w.endall()


@directed("C14 C24")
def err_log(w):
    """Without error_notify_cmd, failures are entries in the log."""
    w.go(sx(w, "x"), sx(w, "y"), sx(w, "xx"), event="V")
    for i, r in enumerate((EJSON("why1"), STATUS(503), BAD("{"), EJSON("two\nlines"), TRUNC(), NET("rst"), w.tok(60))):
        w.auth("x"); w.auth("xx"); w.reply(w.post("auth") or 0, r); w.q(); w.replyall(); w.endall()
        w.ask("y"); w.callback(w.nonce("y"), error=f"denied{i}" if i % 2 else "a\nb%d" % i); w.q(); w.endall()
        if i == 3:
            w.auth("y"); w.auth("x")
            w.re(sx(w, "x"), sx(w, "y"), sx(w, "xx"), event="V", err="R"); w.q()
            w.reply(w.post("auth") or 0, EJSON("why%d" % i)); w.q(); w.endall()
            w.re(sx(w, "x"), sx(w, "y"), sx(w, "xx"), event="V"); w.q(); w.replyall(lambda: EJSON("last")); w.endall()
        w.revoke("xx"); w.revoke("x"); w.q()
    w.replyall(); w.endall(); w.ask("y"); w.net(False); w.callback(w.nonce("y"), code="c"); w.q()
    for _ in range(11): w.fwd(6)
    w.probe()


@directed("C14 C24", background=True)
def err_log_bg(w): err_log(w)


@directed("C07 C09 C12")
def many_failures(w):
    w.go(sx(w, "x", rr=10), event="V")            # no transient_error_if_cmd: never given up
    w.get("x", 200); w.endall(); w.fwd(110)
    for i in range(14):
        if w.rng.random() < .5: w.reply(w.post() or 0, NET("rst")); w.q()
        else: w.fwd(31)
        w.fwd(9); w.fwd(1)
        if w.post() is None: w.fwd(1)
    w.probe(); w.replyall(); w.endall(); w.probe()


def _fail6(w, a, n=6, rr=10):
    for i in range(n):
        if w.post("refresh") is None: w.fwd(rr)
        w.reply(w.post("refresh") or 0, NET(w.rng.choice(["rst", "close", "trunchead"])) if w.rng.random() < .8 else TRUNC()); w.q()


@directed("C09 C12 C06")
def tif_outcomes(w):
    w.go(sx(w, "x", rr=10), sx(w, "y", rr=10), **ALLCMD)
    for out in [0, 1, 0, 7, 209, 0, 215, 255, 201, "kill", "success"]:
        w.get("x", 200); w.endall(); w.fwd(110)
        _fail6(w, "x", 5)
        if out == "success":
            w.fwd(10); w.reply(w.post() or 0, w.tok(200)); w.q(); w.endall(); w.fwd(110)
            _fail6(w, "x", 5); w.fwd(10); w.reply(w.post() or 0, NET("rst")); w.q(); w.endall(1); w.probe(False); w.revoke("x"); w.q(); w.endall(); continue
        _fail6(w, "x", 1)
        if out == "kill": w.fwd(179); w.probe(False); w.fwd(1); w.fwd(1)
        else: w.endall(out, ["tif"])
        w.endall(); w.probe(False)
        if out == 0:
            _fail6(w, "x", 6)
            w.endall(0, ["tif"]); _fail6(w, "x", 6); w.endall(1, ["tif"])
        w.endall(); w.probe(False)
        w.revoke("x"); w.q(); w.endall()


@directed("C09 C07", shell=False)
def tif_cannot_run(w):
    w.go(sx(w, "x", rr=10), **ALLCMD)
    w.get("x", 200); w.fwd(110)
    _fail6(w, "x", 6); w.probe(False)
    w.get("x", 200); w.refresh("x"); w.q(); w.replyall(); w.probe(); w.revoke("x"); w.q(); w.probe(False)


@directed("C09 C15 C12")
def tif_restored(w):
    """Failures are counted afresh for a restored token, a refreshed one, and a new one."""
    w.go(sx(w, "x", rr=10), **ALLCMD)
    for how in ("own", "forged", "same", "crash", "auth", "refreshed"):
        for n in (1, 3, 5):
            w.get("x", 400); w.endall(); w.fwd(310); _fail6(w, "x", n)
            w.dump(); w.q(); d = w.lastdump()
            if how == "forged": d = w.forge({"x": ("forged-tok-1", "forged-rt-1", 5)})
            if how == "crash": w.kill(); w.go(sx(w, "x", rr=10), **ALLCMD)
            elif how == "refreshed": w.refresh("x"); w.q(); w.reply(w.post() or 0, w.tok(40)); w.q(); w.endall()
            elif how != "same": w.revoke("x"); w.q(); w.endall()
            if how == "auth": w.get("x", 91); w.endall(); w.fwd(2)
            elif how != "refreshed": w.restore(d); w.q()
            if w.post("refresh") is None: w.fwd(1)
            _fail6(w, "x", 6); w.endall(0, ["tif"]); w.probe(False); w.revoke("x"); w.q(); w.replyall(); w.endall()


@directed("C09 C07 C17")
def tif_during_reload(w):
    """The configuration is replaced while the transient-error command runs, and then the command ends."""
    c0 = sx(w, "x", rr=10, rbe=20)
    for end in (0, 215, "kill"):
        for kw, ac in ((dict(), {}), (dict(tif="T2"), {}), (dict(tif="T", event="V2", notify="N9"), {}), (dict(), dict(rr=3)), (dict(tif="T"), dict(rr=25, rbe=5)), (dict(ral=30, tif="T"), {})):
            if w.alive: w.re(c0, sx(w, "y"), **ALLCMD); w.q()
            else: w.go(c0, sx(w, "y"), **ALLCMD)
            w.get("x", 200); w.endall(); w.fwd(180); _fail6(w, "x", 6)
            w.re(sx(w, "x", **dict(dict(rr=10, rbe=20), **ac)), sx(w, "y"), **kw); w.q()
            if end == "kill": w.fwd(180); w.fwd(1)
            else: w.endall(end, ["tif"])
            w.status(); w.q()
            for d in (1, 2, 6, 1, 15, 40): w.fwd(d); w.show("x"); w.q()
            w.replyall(lambda: w.tok(200)); w.endall(); w.probe(False)
            w.revoke("x"); w.q(); w.replyall(); w.endall()


@directed("C09 C07 C08 C12")
def same_token(w):
    """The provider answers with tokens it has given before."""
    w.go(sx(w, "x", rr=10, rbe=20), sx(w, "y", rr=10, rbe=20), **ALLCMD)
    for fails, rt in ((3, True), (5, False), (5, True), (2, None)):
        g = w.get("x", 200); w.endall(); w.fwd(180)
        for i in range(4):
            _fail6(w, "x", fails)
            if w.post("refresh") is None: w.fwd(10)
            w.reply(w.post("refresh") or 0, OK(g["tok"], 60 + i, g["rtok"][0] if rt else None if rt is None else w.newtok("rt"))); w.q(); w.endall(); w.probe(False)
            w.fwd(41)
        w.endall(0); w.replyall(lambda: w.tok(100)); w.endall(); w.probe(False)
        w.auth("y"); w.reply(w.post("auth") or 0, OK(g["tok"], 100, g["rtok"][0])); w.q(); w.endall(); w.probe()
        w.auth("x"); w.revoke("x"); w.revoke("y"); w.q(); w.endall()


@directed("C09 C17")
def tif_reload(w):
    """The command is the one configured when the sixth failure happens."""
    w.go(sx(w, "x", rr=10))
    w.get("x", 200); w.fwd(110)
    _fail6(w, "x", 6); w.probe(False)
    w.re(sx(w, "x", rr=10), tif="T1"); w.q(); _fail6(w, "x", 5); w.re(sx(w, "x", rr=10), tif="T2"); w.q(); _fail6(w, "x", 1); w.endall(0); w.probe(False)
    _fail6(w, "x", 5); w.re(sx(w, "x", rr=10)); w.q(); _fail6(w, "x", 1); w.probe(False)
    w.re(sx(w, "x", rr=10), tif="T3"); w.q(); _fail6(w, "x", 6); w.re(sx(w, "x", rr=10)); w.q(); w.endall(1); w.probe(False)


@directed("C01 C09 C12")
def tif_superseded(w):
    """The account changes while the transient-error command runs."""
    for op in ["revoke", "sec", "remove", "nonsec", "restore"]:
        if not w.alive: w.go(sx(w, "x", rr=10), sx(w, "y"), **ALLCMD)
        else: w.re(sx(w, "x", rr=10), sx(w, "y"), **ALLCMD); w.q()
        w.get("x", 200); w.endall(); w.fwd(110); _fail6(w, "x", 6)
        if op == "revoke": w.revoke("x")
        elif op == "sec": w.re(sx(w, "x", 3), sx(w, "y"), **ALLCMD)
        elif op == "remove": w.re(sx(w, "y"), **ALLCMD)
        elif op == "nonsec": w.re(sx(w, "x", rr=11), sx(w, "y"), **ALLCMD)
        elif op == "restore": w.revoke("x"); w.q(); w.restore(w.forge({"x": ("forged-tok1", "forged-rt1", 900)}))
        w.q()
        if op in ("sec", "revoke"): w.ask("x")
        w.endall(1, ["tif"]); w.endall(); w.probe(); w.revoke("x"); w.q(); w.endall()
        if op == "remove": w.re(sx(w, "x", rr=10), sx(w, "y"), **ALLCMD); w.q(); w.probe(False)


# ------------------------------------------------------------------------------------------------ directed: notifications
@directed("C10")
def notify_basic(w):
    w.go(sx(w, "x"), sx(w, "y"), notify="N", interval=20)
    w.ask("x"); w.fwd(7); w.ask("y"); w.show("x"); w.q(); w.ask("y")
    for i in range(30):
        w.fwd(w.rng.choice([1, 2, 3, 5]))
        if i % 5 == 1: w.endall()
        if i == 9: w.ask("x", "refresh")
        if i == 17: w.revoke("y"); w.q()
        if i == 20: w.auth("x")
        if i == 24: w.replyall()
        if i % 7 == 0: w.status(); w.q()
    w.endall(); w.ask("y"); w.fwd(20); w.endall(1); w.probe()


@directed("C10 C17")
def notify_reload(w):
    w.go(sx(w, "x"), sx(w, "y"), notify="N", interval=100)
    w.ask("x"); w.endall(); w.fwd(50)
    w.re(sx(w, "x"), sx(w, "y"), notify="N2", interval=60); w.q(); w.fwd(9); w.fwd(1); w.endall()
    w.re(sx(w, "x"), sx(w, "y"), notify="N2", interval=30); w.q(); w.fwd(29); w.fwd(1); w.endall()
    w.re(sx(w, "x"), sx(w, "y"), notify="N3", interval=200); w.q(); w.fwd(31); w.fwd(168); w.fwd(1); w.endall()
    w.fwd(50); w.re(sx(w, "x"), sx(w, "y"), notify="N4", interval=40); w.q(); w.endall()
    w.re(sx(w, "x"), sx(w, "y")); w.q(); w.fwd(900); w.fwd(10); w.status(); w.q()
    w.re(sx(w, "x"), sx(w, "y"), notify="N5"); w.q(); w.fwd(880); w.fwd(10); w.fwd(1); w.endall()
    w.re(sx(w, "x"), sx(w, "y", 3), notify="N5", interval=5); w.q()
    w.ask("y"); w.endall(); w.re(sx(w, "x"), sx(w, "y", 3), notify="N6", interval=3); w.q(); w.endall(); w.fwd(3); w.endall(); w.probe()


@directed("C10", shell=False)
def notify_noshell(w):
    w.go(sx(w, "x"), notify="N", interval=20, err="R")
    w.ask("x"); w.fwd(20); w.fwd(20); w.callback(w.nonce("x"), error="denied-now"); w.q(); w.probe()


# ------------------------------------------------------------------------------------------------ directed: events
@directed("C12 C13")
def events_burst(w):
    w.go(*[sx(w, a) for a in "abcd"], event="V")
    for a in "abcd": w.get(a)
    for a in "abcd": w.refresh(a)
    w.q()
    for p in list(w.posts): w.reply(p, w.rng.choice([w.tok(), STATUS(400)])); w.q()
    for a in "dcba": w.revoke(a); w.q()
    w.revoke("nosuch"); w.q(); w.revoke("a"); w.q()
    n = 0
    while w.cmds and n < 40:
        n += 1
        c = next(iter(w.cmds))
        k = w.rng.random()
        if k < .6: w.cmd_end(c, w.rng.choice([0, 0, 1, 255, 209])); w.q()
        elif k < .8: w.fwd(29); w.fwd(1); w.fwd(1)
        else: w.show("a"); w.q()
    w.probe()


@directed("C13 C12")
def events_hang(w):
    w.go(sx(w, "x"), event="V")
    for i in range(5): w.revoke("x")
    w.q(); w.fwd(10); w.fwd(19); w.probe(False); w.fwd(1); w.fwd(1); w.fwd(31); w.endall(3); w.probe(False)


@directed("C13 C17 C12")
def events_reload(w):
    w.go(sx(w, "x"), sx(w, "y"), event="V")
    w.get("x"); w.revoke("x"); w.q(); w.revoke("y"); w.q()
    w.re(sx(w, "x"), sx(w, "y"), event="V2"); w.q(); w.endall()
    w.revoke("x"); w.q(); w.endall()
    w.re(sx(w, "x"), sx(w, "y")); w.q(); w.revoke("x"); w.q(); w.get("x"); w.probe()
    w.re(sx(w, "x"), sx(w, "y"), event="V3"); w.q(); w.revoke("y"); w.q(); w.endall(); w.re(sx(w, "x", 3), event="V3"); w.q(); w.probe(); w.endall()


@directed("C13 C12", shell=False)
def events_noshell(w):
    w.go(sx(w, "x"), event="V", notify="N", err="R")
    w.get("x"); w.revoke("x"); w.q(); w.refresh("x"); w.q(); w.probe()


# ------------------------------------------------------------------------------------------------ directed: reload
def _states4(w, v=0, **kw):
    """p pending, e exchange outstanding, a active, r refresh outstanding, n active without refresh token, f failed once, m empty"""
    return [sx(w, n, v, tok="/" + n, **kw) for n in "pearnfm"]


@directed("C02 C01 C17")
def reload_fields(w):
    """Every single-field change, from every token state, with operations in flight."""
    w.go(*_states4(w), **ALLCMD)
    for v in SECV:
        _prep7(w)
        old = dict(w.posts)
        if v == 13: w.re(*_states4(w, v), **ALLCMD)
        else: w.re(*_states4(w, v), **ALLCMD)
        w.q(); w.probe(False)
        for p, d in old.items(): w.reply(p, w.tok()); w.q()
        w.endall(); w.probe(False)
        w.re(*_states4(w), **ALLCMD); w.q(); w.probe(False)
        for a in "pearnfm": w.revoke(a)
        w.q(); w.endall(); w.replyall(); w.probe(False)


def _prep7(w):
    w.ask("p"); w.auth("e"); w.get("a"); w.get("r"); w.get("n", rtok=None); w.get("f")
    w.refresh("f"); w.q(); w.reply(w.post("refresh") or 0, NET("rst")); w.q()
    w.refresh("r"); w.q(); w.endall()


@directed("C02 C17 C07")
def reload_nonsec(w):
    w.go(*_states4(w), **ALLCMD)
    _prep7(w)
    for k in range(6):
        kw = [dict(rbe=1), dict(ral=10 ** 6), dict(rr=2), dict(rbe=5, ral=7000, rr=9), {}, dict(rr=300)][k]
        g = [dict(notify="N2"), dict(interval=7), dict(rbe=3, ral=10 ** 5), {}, dict(event="V2", err="R"), dict(tif="T", rr=5)][k]
        w.re(*_states4(w, 0, **kw), **g); w.q(); w.probe(False)
    w.callback(w.nonce("p"), code="pcode"); w.q()
    w.replyall(); w.endall(); w.probe()


@directed("C02 C01")
def reload_sets(w):
    """Accounts come, go, swap settings."""
    w.go(*_states4(w), **ALLCMD)
    _prep7(w)
    ps = list(w.posts)
    w.re(sx(w, "a", tok="/a"), sx(w, "r", tok="/r"), sx(w, "new"), **ALLCMD); w.q(); w.probe(False)
    for a in "pefnm": w.show(a)
    w.q(); w.revoke("p"); w.q(); w.refresh("e"); w.q()
    w.re(*_states4(w), **ALLCMD); w.q(); w.probe(False)
    for p in ps: w.reply(p, w.tok()); w.q()
    w.endall(); w.probe()
    # exchange the settings of two accounts
    a, r = sx(w, "a", tok="/r", cid="cid-r", secret="secret-of-r"), sx(w, "r", tok="/a", cid="cid-a", secret="secret-of-a")
    w.re(a, r, **ALLCMD); w.q(); w.probe(); w.endall()


@directed("C17")
def reload_bad(w):
    w.go(sx(w, "x"), sx(w, "y"), interval=50, rr=10, **ALLCMD)
    w.auth("x"); w.get("y"); w.refresh("y"); w.q(); w.endall()
    good = render(conf(sx(w, "x", 3), sx(w, "z"), notify="N2"))
    for t in [None, "", "x", good[:-3], good + "}", good.replace("account", "acount", 1), b"\xff\xfe" + good.encode(), "\0", good.replace("auth_uri", "auth_urj", 1), good + good,
              'auth_notify_cmd = "X";', good + ' http_listen = none; https_listen = none;', good.replace("client_id", "client_secret", 1), good + ' auth_notify_interval = 0x;', good + ' refresh_retry = 18446744073709551616s;']:
        if t == good + good:                 # two accounts of the same names: accepted by the grammar; not used here
            continue
        if t is None: w.reload(None, missing=True)
        else: w.reload(None, text=t)
        w.q(); w.probe(False)
        w.show("z"); w.q()
    # an unreadable file: a directory
    import os
    os.unlink(w.conf_path) if os.path.exists(w.conf_path) else None
    os.mkdir(w.conf_path)
    w.send_raw(b"reload:", {"c": "reload", "ok": False, "ast": []}); w.q()
    os.rmdir(w.conf_path)
    w.fwd(10); w.replyall(); w.endall(); w.probe()
    w.fwd(50); w.endall()
    w.re(sx(w, "x", 3), sx(w, "z"), notify="N9", err="R9", event="V9", interval=5, rr=3); w.q(); w.probe()
    w.endall(); w.get("z"); w.endall(); w.fwd(5); w.endall(); w.callback(w.nonce("x"), error="denied-x"); w.q(); w.endall(); w.probe()


@directed("C17 C18 C04")
def reload_defaults(w):
    """A reload which drops settings returns to the defaults."""
    w.go(sx(w, "x", rbe=7, ral=99, rr=8), interval=11, **ALLCMD, rbe=9, ral=77, rr=13)
    w.ask("x"); w.endall(); w.fwd(11); w.endall()
    w.re(sx(w, "x")); w.q()
    w.callback(w.nonce("x"), code="c"); w.q(); w.replyall(lambda: w.tok(3600)); w.probe()
    w.fwd(100); w.fwd(3409); w.fwd(1); w.replyall(lambda: NET("rst")); w.fwd(39); w.fwd(1); w.replyall(lambda: w.tok(10 ** 5)); w.fwd(5399); w.fwd(1); w.replyall(); w.probe()


# ------------------------------------------------------------------------------------------------ directed: dump/restore
@directed("C15 C01 C21")
def restore_states(w):
    w.go(*_states4(w), **ALLCMD)
    _prep7(w); w.probe(False)
    d0 = w.lastdump()
    f = w.forge({a: (f"forged-{a}-123", f"forgedrt-{a}-123", 5000) for a in "pearnfm"})
    w.restore(f); w.q(); w.probe(False)
    w.replyall(); w.endall(); w.probe()
    w.restore(d0); w.q(); w.probe()
    for a in "pearnfm": w.revoke(a)
    w.q(); w.endall(); w.restore(d0); w.q(); w.probe(); w.replyall(); w.endall()
    w.kill(); w.go(*_states4(w), **ALLCMD); w.probe(False)
    w.restore(d0); w.q(); w.probe(False); w.replyall(); w.endall(); w.probe()
    for a in "ar": w.refresh(a)
    w.q(); w.replyall(); w.endall(); w.probe()


@directed("C15")
def restore_secs(w):
    """Settings of dump and configuration differ in one field each."""
    w.go(*[sx(w, f"v{v}", v) for v in SECV], event="V")
    ds = {}
    import dumpfmt as D
    for base in (0, 5, 12, 11):
        w.re(*[sx(w, f"v{v}", base) for v in SECV], event="V"); w.q()
        d = w.forge({f"v{v}": (f"tok-of-v{v}-{base}", None if v % 2 else f"rt-of-v{v}-{base}", 3000 + v) for v in SECV})
        # same names as in the variants, settings of `base`; restore into the variants
        w.re(*[sx(w, f"v{v}", v, cid=f"cid-v{v}") for v in SECV], event="V"); w.q()
        w.restore(d); w.q(); w.probe(False)
        w.re(*[sx(w, f"v{v}", 3) for v in SECV], event="V"); w.q(); w.restore(d); w.q(); w.probe(False)


@directed("C15 C07 C05 C21")
def restore_times(w):
    w.go(*[sx(w, f"t{i}", rbe=50) for i in range(8)], event="V")
    f = w.forge({"t0": ("tok-000000", "rt-000000", -100, -4000), "t1": ("tok-111111", None, -100, -4000), "t2": ("tok-222222", "rt-222222", 40, -10), "t3": ("tok-333333", "rt-333333", 200, 100),
                 "t4": ("tok-444444", None, 100, -10), "t5": ("tok-555555", "rt-555555", 51, -5), "t6": None, "nosuch": ("tok-777777", "rt", 5)})
    w.restore(f); w.q(); w.status(); w.q(); w.dump(); w.q(); w.endall()
    for i in range(8): w.show(f"t{i}")
    w.q(); w.fwd(1); w.fwd(1); w.replyall(lambda: w.tok(100)); w.endall(); w.probe()
    w.fwd(60); w.replyall(lambda: w.tok(100)); w.endall(); w.probe()


@directed("C15 C16 C19")
def restore_extremes(w):
    """Dump contents at the limits of what times can be."""
    w.go(*[sx(w, f"t{i}") for i in range(6)], event="V")

    def ch(acc):
        for i, (o, e) in enumerate([(0, 0), (2 ** 40, 2 ** 40), (1, 2 ** 62), (WALL0, 2 ** 35), (2 ** 62, 5), (WALL0 - 5, WALL0 + 10 ** 6)]):
            c, _ = acc[f"t{i}"]
            acc[f"t{i}"] = (c, {"tok": f"ext-tok-{i}-9", "rtok": f"ext-rt-{i}-9" if i % 2 else None, "obt": (o, 999999999), "exp": (e, 0)})
    import dumpfmt as D
    ver, acc = D.decode(w.lastdump()); ch(acc)
    # what such times mean to the clock is not specified: only that the server survives (C19)
    s = D.make(acc, 1)
    w.kill(); w.go(sx(w, "other"), event="V")
    w.restore(s); w.q(); w.probe()


@directed("C16 C19")
def restore_bad(w):
    import dumpfmt as D
    w.go(sx(w, "x"), sx(w, "y"), sx(w, "z"), **ALLCMD)
    w.get("x"); w.ask("y"); w.endall()
    f = w.forge({"x": ("forged-x-1", "frt-x-1", 500), "y": ("forged-y-1", "frt-y-1", 500), "z": ("forged-z-1", "frt-z-1", 500)})
    ver, acc = D.decode(f)
    bads = [b"", b"x", f[:11], f[:12], f[:20], f[:27], f[:28], f[:-1], f[1:], f + b"x", bytes(len(f)), f[::-1], D.make(acc, 0), D.make(acc, 2), D.make(acc, 2 ** 64 - 1), D.encrypt(b""), D.encrypt(b"\0" * 8),
            D.encrypt(struct.pack("<Q", 1)), D.encrypt(struct.pack("<QQ", 1, 2 ** 63)), D.encrypt(D.encode(acc)[:-1]), D.encrypt(D.encode(acc)[:-20]), D.encrypt(D.encode(acc)[:40]),
            D.encode(acc), b"dump:" + f]
    for k in range(24):
        i = w.rng.randrange(len(f)); b = bytearray(f); b[i] ^= 1 << w.rng.randrange(8); bads.append(bytes(b))
    for k in range(6): bads.append(f[:w.rng.randrange(len(f))])
    for b in bads: w.restore(b); w.q(); w.dump(); w.q()
    w.probe()
    w.restore(f); w.q(); w.probe()


@directed("C15 C21")
def restart_cycle(w):
    """dump / kill or shutdown / start / restore, with and without changes of the configuration in between."""
    w.go(sx(w, "x"), sx(w, "y"), sx(w, "z", 13), event="V", notify="N")
    w.get("x", 900); w.get("z", 800, None); w.ask("y"); w.endall()
    for i in range(4):
        d = w.lastdump()
        if i % 2: w.kill()
        else: w.shutdown()
        w.go(sx(w, "x", rr=3), sx(w, "y"), sx(w, "z", 13 if i < 3 else 0), event="V", notify="N")
        if i == 1: w.show("x"); w.q()
        w.restore(d); w.q(); w.probe(False); w.show("x"); w.q(); w.show("z"); w.q(); w.fwd(100); w.endall()


# ------------------------------------------------------------------------------------------------ directed: robustness
@directed("C19 C20 C26")
def ctl_garbage(w):
    w.go(sx(w, "x"), **ALLCMD)
    w.get("x"); w.endall()
    for b in [b"", b"x", b":", b"showtoken", b"showtoken:", b"showtoken:withurl", b"showtoken:withurl\xff x", b"\xff:", b"refresh:", b"refresh:x", b"unknown:", b"dump:x", b"info:x", b"reload:x",
              b"status:x", b"\0" * 100, b"showtoken: withurl x", b"SHOWTOKEN:withurl x", b"status", b"revoke", b"revoke:\xff", b"restore", b"a" * 100000, b"a" * 70000 + b":", b"refresh:withurl\0x", b":status:", b"shutdown", b"shutdown:x"]:
        w.bad(b); w.q()
        w.status(); w.q()
    w.probe()


@directed("C19 C20 C26")
def ctl_garbage2(w):
    """Every request with arguments that are not what they should be."""
    w.go(sx(w, "x"), sx(w, "y"), **ALLCMD)
    w.get("x"); w.ask("y"); w.endall()
    args = [b"\xff", b"\xc3", b"x\xff", b"\xed\xa0\x80", b"\0", b" ", b"  ", b"\xe2\x80\x83", b"withurl", b"withurl\xe2\x80\x83x", b"withurl\tx", b"withurl  x", b"withurl x ", b"withurl x\xff", b"withurl \xff", b"\xff x\xff", b"withurl \xe2\x80\x83x",
            b"withurl X", b"withurl x\n", b"withurl \xc3\xa9" * 50, b"withouturl " + b"z" * 70000]
    for c in (b"dump", b"info", b"reload", b"refresh", b"restore", b"revoke", b"showtoken", b"shutdown", b"status", b"x\xff", b"\xff", b"\xe2\x80\x83"):
        for a in args:
            w.bad(c + b":" + a); w.q()
        w.status(); w.q()
    r = w.rng
    for i in range(60):                    # valid requests, but for one thing
        b = bytearray(r.choice([b"showtoken:withurl x", b"refresh:withouturl x", b"revoke:x", b"status:", b"dump:", b"info:"]))
        k = r.randrange(len(b) - 1) if b[-1:] == b":" else r.choice([r.randrange(b.index(b":")), len(b) - 1])      # (what stands before the account is free)
        b[k] = r.choice([x for x in range(256) if x != b[k] and x not in b"xy:"])
        w.bad(bytes(b)); w.q()
    w.probe()


@directed("C19 C20 C26")
def accept_fails(w):
    """No file descriptors for a while."""
    w.go(sx(w, "x"), sx(w, "y", 13), **ALLCMD)
    w.ask("x"); w.ask("y"); w.endall()
    for n in (1, 2, 5):
        for f in (w.status, lambda: w.callback(0, state="none", https=False), lambda: w.callback(0, state="none", https=True)):
            w.ctl.set("accfail", n)
            f(); w.q(); w.probe()
    for a in "xy":
        w.ctl.set("accfail", 1)
        w.callback(w.nonce(a), code="c" + a); w.q(); w.replyall(); w.endall()
    w.probe()


@directed("C19 C03 C26")
def http_spaces(w):
    """Requests with characters beyond ASCII, and odd white space, everywhere."""
    w.go(sx(w, "x"), **ALLCMD)
    w.ask("x"); w.endall()
    for sp in (b"\xe2\x80\x83", b"\xc2\xa0", b"\xe3\x80\x80", b"\x0b", b"\x0c", b"\xc3\xa9", b"\0", b"\xf0\x9f\x98\x80", b"\xef\xbb\xbf"):
        for l in ((b"GET" + sp + b" / HTTP/1.1", b"Host: localhost"), (b"GET /" + sp + b" HTTP/1.1", b"Host: localhost"), (b"GET /?" + sp + b"state=q&code=" + sp + b" HTTP/1.1", b"Host: localhost"),
                  (b"GET / HTTP/1.1" + sp, b"Host: localhost"), (b"GET / HTTP/1.1", sp + b"Host: localhost"), (b"GET / HTTP/1.1", b"Host" + sp + b": localhost"), (b"GET / HTTP/1.1", b"Host:" + sp + b"localhost"),
                  (b"GET / HTTP/1.1", b"Host:" + sp * 3), (b"GET / HTTP/1.1", b"Host: " + sp + b" localhost"), (b"GET / HTTP/1.1", b"Host: localhost" + sp), (b"GET / HTTP/1.1", b"Host:", b" " + sp + b"localhost"),
                  (b"GET / HTTP/1.1", sp, b"Host: localhost"), (b"GET / HTTP/1.1", b"Host: local" + sp + b"host"), (b"GET / HTTP/1.1", sp + b": a", sp), (sp,), (b"GET / HTTP/1.1",) + (b"\t" + sp,) * 3):
            w.callback(0, state="", raw=b"\r\n".join(l) + b"\r\n\r\n", https=False, wf=False, lossy=True); w.q()
    w.probe()
    w.callback(w.nonce("x"), code="fine"); w.q(); w.replyall(); w.endall(); w.probe()


@directed("C19 C03 C26")
def http_garbage(w):
    w.go(sx(w, "x"), sx(w, "y", 13), **ALLCMD)
    w.ask("x"); w.ask("y"); w.endall()
    st = w.nstates[w.nonce("x")].encode()
    p = w.http_port
    for https in (False, True):
        for b in [b"\r\n\r\n", b"GET\r\n\r\n", b"GET /\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nHost:\r\n\r\n", b"GET / HTTP/1.1\r\nHost: [\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a b\r\n\r\n",
                  b"\xff\xfe\r\n\r\n", b"GET \xff HTTP/1.1\r\nHost: localhost\r\n\r\n", b"GET / HTTP/1.1\r\nHost: localhost\r\nHost: localhost\r\n\r\n", b"GET http://localhost/?state=x HTTP/1.1\r\n\r\n",
                  b"GET / HTTP/9.9\r\nHost: localhost\r\n\r\n", b"GET /?" + b"a" * 3000 + b" HTTP/1.1\r\nHost: localhost\r\n\r\n", b"GET ? HTTP/1.1\r\nHost: localhost\r\n\r\n", b"GET // HTTP/1.1\r\nHost: :0\r\n\r\n",
                  b"GET / HTTP/1.1\r\n: x\r\n\r\n", b"GET / HTTP/1.1\r\nnocolon\r\n\r\n", b"GET /?state=%ff%fe&code=%00 HTTP/1.1\r\nHost: localhost\r\n\r\n", b"\n\n", b" \r\n \r\n\r\n"]:
            w.callback(0, state="", raw=b, https=https, wf=False, lossy=True); w.q()
    for h in (b"localhost:99999", b"localhost:", b"localhost:x", b"localhost%20:1", b"[::1]:1", b"user@localhost:%d" % p, b"localhost:%d/../" % p, b"\xc3\xbc"):
        w.callback(0, state="", raw=b"GET /?state=q&code=e HTTP/1.1\r\nHost: " + h + b"\r\n\r\n", wf=False, lossy=True); w.q()
    w.probe()
    w.callback(w.nonce("x"), code="fine"); w.callback(w.nonce("y"), code="fine2"); w.q(); w.replyall(); w.endall(); w.probe()


@directed("C19 C08 C14 C11")
def reply_garbage(w):
    """Token endpoint replies of all sorts."""
    w.go(sx(w, "x", rr=5), sx(w, "y", rr=5), **ALLCMD)
    for i in range(24):
        w.auth("x"); w.endall()
        rep = rnd_reply(w, w.rng)
        w.reply(w.post("auth") or 0, rep); w.q(); w.endall(); w.status(); w.q(); w.dump(); w.q()
        for p in list(w.posts): w.reply(p, w.tok()); w.q()
        if w.post() is None: w.fwd(6)
        w.replyall(); w.endall()
        w.refresh("x"); w.q(); w.endall()
        if w.post("refresh"):
            w.reply(w.post("refresh"), rnd_reply(w, w.rng)); w.q(); w.endall(); w.status(); w.q()
        w.revoke("x"); w.q(); w.replyall(); w.endall(); w.fwd(7)


def rnd_reply(w, r):
    """A random token endpoint reply, including extreme ones."""
    return r.choice([
        lambda: w.tok(r.choice([0, 1, 5, 60, 3600, 10 ** 7])), lambda: w.tok(r.choice([0, 10 ** 10, 2 ** 40, 2 ** 62, 2 ** 63, 2 ** 64 - 1])),
        lambda: w.tok(3600, None), lambda: w.tok(3600, None, extra={"scope": "a b", "id_token": {"x": [1]}, "refresh_expires_in": 5}),
        lambda: STATUS(r.choice([400, 401, 403, 404, 410, 429, 500, 502, 503, 504])), lambda: EJSON(r.choice(ERRS) if r.random() < .4 else f"err{r.randrange(999)}"),
        lambda: BAD(r.choice(["", "{", "null", "5", '"x"', "[1]", "{}", "<html></html>", '{"access_token": null, "token_type": "Bearer", "expires_in": 5}', '{"access_token": "aaaaaaa", "token_type": "Bearer", "expires_in": 1.5}',
                              '{"access_token": ["a"], "token_type": "Bearer", "expires_in": 5}', '{"access_token": "bbbbbbb", "token_type": "Bearer", "expires_in": 18446744073709551616}',
                              '{"access_token": "ccccccc", "token_type": "Bearer", "expires_in": "-3"}', "[" * 300, '{"a":' * 200, '{"error": {}}', '{"access_token": "ddddddd", "token_type": "", "expires_in": 4}'])),
        lambda: BAD(bytes(r.randrange(256) for _ in range(40))), lambda: NET(r.choice(["rst", "close", "trunchead"])), lambda: TRUNC("truncbody")])()


@directed("C20 C07 C10")
def slow_everything(w):
    """All slow parties stall at once; everyone else is served."""
    w.go(sx(w, "x", rr=5), sx(w, "y", rr=5), sx(w, "z"), sx(w, "u", rr=5), interval=20, **ALLCMD)
    w.get("u", 200)                       # event command stalls from here on
    w.net(False); w.refresh("u"); w.q()
    for i in range(5): w.fwd(5)
    w.net(True)
    w.auth("x"); w.ask("y")
    import socket
    ss = []
    for port in (w.http_port, w.https_port):
        for b in (b"", b"GET / HT", b"GET / HTTP/1.1\r\nHost: loc"):
            s = socket.create_connection(("127.0.0.1", port)); s.sendall(b); ss.append(s)
    w.q()
    w.probe(False)
    for a in "xyz": w.show(a)
    w.q(); w.callback(w.nonce("z"), code="zcode"); w.q(); w.reply(w.post("auth") or 0, w.tok(100)); w.q(); w.show("z"); w.q()
    w.re(sx(w, "x", rr=6), sx(w, "y", rr=5), sx(w, "z"), sx(w, "u", rr=5), interval=15, **ALLCMD); w.q()
    w.fwd(15); w.probe(False); w.fwd(4); w.fwd(6); w.probe(False)
    w.revoke("y"); w.q(); w.auth("y"); w.q(); w.probe(False)
    for s in ss: s.close()
    w.q(); w.replyall(); w.endall(); w.probe()


@directed("C20 C19 C03")
def slow_https(w):
    """Any number of connections to the callback servers at every stage, and callbacks that arrive meanwhile."""
    import socket, ssl
    w.go(sx(w, "x", 13), sx(w, "y", 13), sx(w, "z"), **ALLCMD)
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); ctx.check_hostname = False; ctx.verify_mode = ssl.CERT_NONE
    b_in, b_out = ssl.MemoryBIO(), ssl.MemoryBIO()
    try: ctx.wrap_bio(b_in, b_out, server_hostname="localhost").do_handshake()
    except ssl.SSLWantReadError: pass
    hello, ss, k = b_out.read(), [], 0
    def served(a):
        nonlocal k
        k += 1; w.ask(a); w.callback(w.nonce(a), code="code%d" % k); w.q(); w.reply(w.post("auth") or 0, w.tok(1000)); w.q(); w.show(a); w.q(); w.revoke(a); w.q(); w.endall()
    def idle(port, tls, b):
        s = socket.create_connection(("127.0.0.1", port), timeout=10)
        try:
            if tls: s = ctx.wrap_socket(s, server_hostname="localhost")
            s.sendall(b)
        except OSError as e: raise HarnessError(f"the callback server does not answer: {e}")
        ss.append(s); w.q()
    for port, tls, b in [(w.https_port, False, x) for x in (b"", hello[:1], hello[:5], hello[:-1], hello)] + [(w.https_port, True, x) for x in (b"", b"G", b"GET / HTTP/1.1\r\nHo")] + [(w.http_port, False, x) for x in (b"", b"GET / HTTP/1.1\r\nHo", hello)]:
        idle(port, tls, b)
        served("xyz"[len(ss) % 3])
        if len(ss) % 3 == 0: served("x"); w.probe(False)
    for i in range(30): idle(w.rng.choice([w.http_port, w.https_port]), False, b"")
    for a in "xyz": served(a)
    w.fwd(120); served("x"); served("z")
    w.rng.shuffle(ss)
    for s in ss: s.close()
    w.q(); served("y"); w.probe(); w.replyall(); w.endall()


@directed("C10")
def notify_default(w):
    """Reminders when no interval is configured."""
    w.go(sx(w, "x"), sx(w, "y"), notify="N"); w.ask("x"); w.q(); w.endall()
    w.fwd(100); w.ask("y"); w.q(); w.endall()
    for d in (799, 1, 99, 1, 799, 1, 99, 1, 1, 798, 1, 1):
        w.fwd(d); w.endall()
    w.probe(); w.endall()


@directed("C20 C19 C26")
def slow_ctl_close(w):
    """Clients which disconnect without reading."""
    import socket
    w.go(sx(w, "x"), **ALLCMD); w.get("x"); w.endall()
    for b in (b"status:", b"showtoken:withurl x", b"dump:", b"info:", b"", b"showtoken:withurl nosuch"):
        s = socket.socket(socket.AF_UNIX); s.connect(w.sockp); s.sendall(b); s.shutdown(socket.SHUT_WR); s.close()
        w.q(); w.status(); w.q()
    n = w.auth("x"); w.revoke("x"); w.q(); w.ask("x"); n = w.nonce("x")
    w.callback(n, close_early=True); w.q(); w.callback(n, code="gone", close_early=True); w.q(); w.replyall(); w.endall(); w.probe()


# ------------------------------------------------------------------------------------------------ directed: suspend
@directed("C25 C07 C10 C05")
def suspend_all(w):
    w.go(sx(w, "x", rr=30), sx(w, "y"), sx(w, "z", ral=500), sx(w, "s"), interval=60, **ALLCMD)
    w.get("x", 1000); w.get("y", 5000, None); w.get("z", 3000); w.ask("s"); w.endall()
    w.suspend(300); w.q(); w.probe(False); w.fwd(40); w.endall(); w.probe(False)
    w.suspend(800); w.q()
    for a in "xyz": w.show(a)
    w.q(); w.status(); w.q(); w.fwd(40); w.replyall(lambda: w.tok(1000)); w.endall(); w.probe(False)
    w.refresh("x"); w.q(); w.suspend(29); w.q(); w.fwd(20); w.suspend(1000); w.q(); w.fwd(10); w.fwd(1)
    w.suspend(29); w.q(); w.fwd(40); w.replyall(lambda: w.tok(1000)); w.endall()
    w.suspend(10 ** 6); w.q(); w.probe(False); w.fwd(40); w.replyall(lambda: w.tok(500)); w.endall(); w.probe()


@directed("C25")
def suspend_soon(w):
    """Short steps after waking: nothing may be later than 40 s."""
    w.go(sx(w, "x", ral=10 ** 6), sx(w, "s"), interval=900, event="V", notify="N")
    w.get("x", 4000); w.ask("s"); w.endall()
    for d in (900, 2500, 900, 910):
        w.fwd(w.rng.choice([1, 7, 20, 36]))
        w.suspend(d); w.q()
        w.show("x"); w.q()
        for k in range(5): w.fwd(10)
        w.endall(); w.replyall(lambda: w.tok(4000)); w.endall(); w.probe(False)


@directed("C25 C07 C10")
def suspend_far(w):
    """What is due is a long way off, and nothing happens but suspending."""
    for life, first in ((100000, 50000), (7500, 3600), (10 ** 6, 10)):
        w.go(sx(w, "x"), sx(w, "y"), event="V", notify="N", interval=life - 1000)
        w.get("x", life); w.ask("y"); w.endall()
        w.fwd(w.rng.choice([1, 20, 36]))
        for d in (first, life - first - 500):
            w.suspend(d); w.q(); w.fwd(20); w.fwd(20); w.endall(); w.replyall(lambda: w.tok(life)); w.endall()
        w.suspend(500); w.q(); w.fwd(20); w.fwd(20); w.endall(); w.replyall(lambda: w.tok(life)); w.endall()
        w.suspend(2 * life); w.q(); w.fwd(40); w.endall(); w.replyall(lambda: w.tok(life)); w.endall(); w.probe()
        w.kill()
    w.go(sx(w, "x"))


@directed("C10 C07 C25 C20")
def many_accounts(w):
    """Many accounts for which something is due at the same time."""
    names = ["m%d" % i for i in range(20)]
    w.go(*[sx(w, a, rr=9) for a in names], interval=60, **ALLCMD)
    for a in names[:10]: w.ask(a)
    w.endall()
    for a in names[10:]: w.get(a, 200)
    w.endall()
    w.fwd(59); w.fwd(1); w.endall(); w.fwd(30); w.fwd(19); w.fwd(1)                # reminders, refreshes
    for k, p in enumerate(list(w.posts)): w.reply(p, w.tok(300) if k % 2 else NET("rst")); w.q()
    w.endall(); w.fwd(9); w.fwd(1); w.endall(); w.probe(False)
    w.re(*[sx(w, a, rr=9) for a in names], interval=20, **ALLCMD); w.q(); w.endall(); w.fwd(19); w.fwd(1); w.endall()
    w.net(False)
    for a in names[10:]: w.refresh(a)
    w.q(); w.fwd(9); w.fwd(1); w.endall(); w.suspend(500); w.q(); w.fwd(40); w.endall(); w.net(True); w.fwd(10)
    w.replyall(lambda: w.tok(300)); w.endall()
    w.reload(conf(*[sx(w, a, rr=9) for a in names], ral=5, event="V")); w.q(); w.fwd(5); w.fwd(5); w.replyall(lambda: w.tok(300)); w.endall(); w.probe()


@directed("C25 C11 C09")
def suspend_ops(w):
    """Suspending in the middle of exchanges, retries and commands: their time-outs count running time only."""
    w.go(sx(w, "x", rr=10), sx(w, "y"), **ALLCMD)
    w.ask("x"); w.endall(); w.net(False); w.callback(w.nonce("x"), code="c"); w.q()
    w.suspend(3); w.q(); w.fwd(3); w.suspend(100); w.q(); w.fwd(3); w.net(True); w.fwd(6)
    w.fwd(20); w.suspend(50); w.q(); w.reply(w.post() or 0, w.tok(200)); w.q()
    w.suspend(29); w.q(); w.fwd(20); w.suspend(100); w.q(); w.fwd(9); w.fwd(2); w.endall(); w.fwd(40)
    _fail6(w, "x", 6); w.suspend(300); w.q(); w.fwd(100); w.endall(0); w.probe(False)
    w.fwd(45); w.replyall(); w.endall(); w.probe()


# ------------------------------------------------------------------------------------------------ race matrix
RSTATES = ["empty", "pending", "active", "refr", "exch", "sleep", "tif", "expired", "nortok", "expref"]
NXT = dict(
    empty=["show", "refresh", "cb_stale"], pending=["cb_ok", "cb_err", "show", "refresh", "notify", "cb_ok2"],
    active=["refresh", "due", "show", "refresh2"], refr=["r_ok", "r_okrt", "r_status", "r_net", "r_timeout", "r_bad"],
    exch=["r_ok", "r_okrt", "r_status", "r_bad", "r_net", "r_timeout", "notify"], sleep=["wake", "netup_wake"],
    tif=["t0", "t1", "tkill", "show"], expired=["show", "refresh", "due"], nortok=["refresh", "due", "show"], expref=["r_ok", "r_net", "r_status", "show"])
OPS = ["revoke", "sec", "remove", "readd", "nonsec", "restore", "show", "refresh", "status", "dump", "cb_err", "cb_ok", "newreq", "none", "badreload", "yrefresh", "revoke2", "secsec"]


def rc(w, kind=0, xv=0):
    """Configurations for races.  kind 0 base, 1 non-security changes, 2 x removed."""
    y = sx(w, "y")
    x = sx(w, "x", xv, rr=10, **({"rbe": 30, "ral": 4000} if kind == 1 else {}))
    g = dict(notify="N", err="R", event="V", tif="T", interval=50) if kind != 1 else dict(notify="N1", err="R1", event="V1", tif="T1", interval=40)
    return conf(*([y] if kind == 2 else [x, y]), **g)


def r_setup(w, st):
    """Bring x to state st (from empty)."""
    if st == "empty": return
    if st == "pending": w.ask("x"); w.endall(); return
    if st == "exch": w.auth("x"); w.endall(kinds=["auth", "err", "event"]); return
    if st == "sleep":
        w.ask("x"); w.endall(); w.net(False); w.callback(w.nonce("x"), code="slp"); w.q(); return
    w.get("x", 200, None if st == "nortok" else True); w.endall()
    if st == "refr": w.refresh("x"); w.q()
    elif st in ("expired", "expref"):
        w.net(False); w.fwd(110); w.fwd(5); w.advance(w.rng.choice([1, 5])); w.q()
        if st == "expired":
            for i in range(9): w.fwd(10)
            # a failed attempt just now: nothing outstanding, expired
        w.net(True)
        if st == "expref":
            for i in range(10): w.fwd(10)
    elif st == "tif":
        w.net(False); w.refresh("x"); w.q()
        for i in range(12):
            if any(d["kind"] == "tif" for d in w.cmds.values()): break
            w.fwd(10)
        w.net(True)


def r_do(w, op):
    """Start operation op on x without waiting for its completion."""
    r = w.rng
    n = w.nonce("x")
    if op == "show": w.show("x")
    elif op == "refresh": w.refresh("x")
    elif op == "refresh2": w.refresh("x"); w.refresh("x")
    elif op == "newreq": w.refresh("x", False)
    elif op == "revoke": w.revoke("x")
    elif op == "revoke2": w.revoke("x"); w.show("x")
    elif op == "status": w.status()
    elif op == "dump": w.dump()
    elif op == "cb_ok" or op == "cb_stale":
        if n: w.callback(n, code=f"cc{r.randrange(999)}")
    elif op == "cb_ok2":
        if n: w.callback(n, code="cca1"); w.callback(n, code="cca2")
    elif op == "cb_err":
        if n: w.callback(n, error="denied-race")
    elif op == "due": w.ungate(); w.advance(r.choice([110, 111, 40, 10])); w.regate()
    elif op == "notify": w.advance(r.choice([50, 49, 40]))
    elif op == "wake": w.advance(6)
    elif op == "netup_wake": w.net(True); w.advance(6)
    elif op[:2] == "r_":
        p = w.post()
        if p is None: return
        if op == "r_timeout": w.advance(30); return
        w.reply(p, {"r_ok": lambda: w.tok(300, None), "r_okrt": lambda: w.tok(300), "r_status": lambda: STATUS(400), "r_bad": lambda: BAD("{}"), "r_net": lambda: NET("rst")}[op]())
    elif op in ("t0", "t1"):
        for c in [c for c, d in w.cmds.items() if d["kind"] == "tif"]: w.cmd_end(c, int(op[1]))
    elif op == "tkill": w.advance(181)
    elif op == "sec": w.reload(rc(w, 0, r.choice([1, 2, 3, 4, 5, 6, 7, 8])))
    elif op == "secsec": w.reload(rc(w, 0, 3)); w.settle(); w.reload(rc(w))
    elif op == "remove": w.reload(rc(w, 2))
    elif op == "readd": w.reload(rc(w, 2)); w.settle(); w.reload(rc(w))
    elif op == "nonsec": w.reload(rc(w, 1))
    elif op == "restore": w.restore(w.forged)
    elif op == "badreload": w.reload(None, text="nonsense")
    elif op == "yrefresh": w.refresh("y"); w.show("y")


def race(w, rounds):
    """rounds: list of (state, A, k, B, C)."""
    w.gates = False
    w.start(rc(w)); w.q()
    w.ast = rc(w)
    for i, (st, a, k, b, c) in enumerate(rounds):
        w.gates = False; w.ungate()
        w.forged = w.forge({"x": (f"forged-{i}-tok", f"forged-{i}-rt", 2000)})
        r_setup(w, st)
        w.settle()
        w.gates = True; w.regate()
        r_do(w, a); w.settle()
        for _ in range(k):
            if not w.step(): break
        held = set(w.gated())
        for op in (b, c):
            r_do(w, op); w.settle()
            w.run_others(held)
        # interleave what is left at random
        n = 0
        while w.gated() and n < 200: w.step(); n += 1
        w.quiet()
        w.ungate(); w.gates = False
        w.net(True)
        w.status(); w.q(); w.dump(); w.q()
        w.show("x"); w.q()
        # finish what is outstanding, then return to the base
        ps = sorted(w.posts)
        for p in ps: w.reply(p, w.rng.choice([w.tok(500), w.tok(500), STATUS(400), BAD("")])); w.q()
        w.endall(w.rng.choice([0, 0, 1])); w.show("x"); w.q(); w.dump(); w.q()
        w.replyall(); w.endall()
        w.reload(rc(w)); w.q(); w.revoke("x"); w.q(); w.endall()
        w.fwd(w.rng.choice([0, 7, 60])); w.replyall(); w.endall(); w.revoke("x"); w.q(); w.endall()


def race_combos():
    return [(s, a, k, b) for s in RSTATES for a in NXT[s] for k in range(5) for b in OPS]


# ------------------------------------------------------------------------------------------------ random walks
def walk(w, n, prof):
    """A random history of n steps.  prof: weights."""
    r = w.rng
    names = ["x", "y", "z"][:prof.get("accounts", 2)]
    W = dict(show=5, refresh=4, revoke=1.5, status=1, dump=1, info=.1, bad=.2, reload=1.5, badreload=.3, restore=.7, cb=6, cbbad=.6, reply=8, cmd=5, adv=6, susp=.4, net=.8, kill=.1, q=7)
    W.update(prof.get("w", {}))

    def gconf():
        accts = []
        for a in names:
            if r.random() < .06 and len(names) > 1: continue
            v = w.vars[a]
            if r.random() < prof.get("secp", .15): v = w.vars[a] = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13])
            accts.append(sx(w, a, v, rbe=r.choice([None, None, 0, 10, 100]), ral=r.choice([None, None, None, 50, 300, 10 ** 5]), rr=r.choice([None, None, 5, 20, 100])))
        if not accts: accts = [sx(w, names[0], w.vars[names[0]])]
        o = lambda p, v: v if r.random() < p else None
        return conf(*accts, notify=o(.8, r.choice(["N", "N", "N2"])), err=o(.8, r.choice(["R", "R2"])), event=o(prof.get("evp", .85), r.choice(["V", "V2"])), tif=o(prof.get("tifp", .6), r.choice(["T", "T2"])),
                    interval=r.choice([None, 7, 20, 60]), rbe=r.choice([None, None, 5, 60]), ral=r.choice([None, None, 100]), rr=r.choice([None, 3, 10, 30]))
    w.vars = {a: 0 for a in names}
    w.start(gconf()); w.q()
    w.dl = []
    out = 0
    kinds, ws = list(W), list(W.values())
    for _ in range(n):
        k = r.choices(kinds, ws)[0]
        a = r.choice(names)
        pend = len(w.ctls) + len(w.https)
        if k in ("show", "refresh", "revoke", "status", "dump", "cb", "cbbad", "reload", "restore", "bad", "info", "badreload") and pend >= 4: k = "q"
        if k == "q": w.q()
        elif k == "show": w.show(a if r.random() < .97 else "nosuch", r.random() < .8)
        elif k == "refresh": w.refresh(a if r.random() < .97 else "nosuch", r.random() < .8)
        elif k == "revoke": w.revoke(a if r.random() < .97 else "nosuch")
        elif k == "status": w.status()
        elif k == "dump": w.dump()
        elif k == "info": w.info_cmd()
        elif k == "bad": w.bad(r.choice([b"", b"x:", b"status:x", b"showtoken:x"]))
        elif k == "reload": w.reload(gconf())
        elif k == "badreload": w.reload(None, text="account") if r.random() < .7 else w.reload(None, missing=True)
        elif k == "restore":
            if w.dumps and r.random() < .7:
                d = w.dumps[r.choice(list(w.dumps))]
                if r.random() < .1: d = d[:-1]
                w.restore(d)
            else:
                w.q(); w.restore(w.forge({x: (w.newtok("fx"), w.newtok("fr") if r.random() < .7 else None, r.choice([-5, 50, 1000])) for x in names if r.random() < .7}))
        elif k in ("cb", "cbbad"):
            ns = sorted(w.nacct)
            if not ns: continue
            m = w.nonce(a) if r.random() < .75 and w.nonce(a) else r.choice(ns)
            if k == "cbbad": w.callback(m, code="cx", host="evil.example") if r.random() < .5 else w.callback(m)
            elif r.random() < .8: w.callback(m, code=f"wc{r.randrange(10 ** 6)}")
            else: w.callback(m, error=f"werr{r.randrange(10 ** 6)}")
        elif k == "reply":
            if not w.posts: continue
            p = r.choice(sorted(w.posts))
            x = r.random()
            po = prof.get("ok", .55)
            if x < po and w.granted and r.random() < .12:     # a token seen before
                t = r.choice(w.granted[-3:])
                rep = OK(t["tok"], r.choice([20, 100, 150, 3600]), r.choice([None, *t["rtok"]]))
                w.exps.append(w.t + rep["ein"])
            elif x < po: rep = w.tok(r.choice([20, 100, 150, 500, 3600]), r.random() < (.8 if w.posts[p]["kind"] == "auth" else .3))
            elif x < po + prof.get("net", .25): rep = r.choice([NET("rst"), NET("close"), TRUNC(), NET("trunchead")])
            else: rep = rnd_reply(w, r)
            w.reply(p, rep)
        elif k == "cmd":
            if not w.cmds: continue
            c = r.choice(sorted(w.cmds))
            w.cmd_end(c, r.choice([0, 0, 0, 0, 0, 1, 209, 215]))
        elif k == "adv" and w.exps and r.random() < .4:
            # to (near) an instant at which something is due: a token's expiry, or some lead before it
            due = [x - w.t for x in (e + o for e in w.exps[-6:] for o in (0, 0, -1, 1, 5, -5, -10, -9, -60, -90, -100)) if 0 < x - w.t < 4000]
            if due:
                w.advance(r.choice(sorted(due)[:12]))
                if r.random() < .4:
                    w.q()
                    for a in names: w.show(a, r.random() < .8)
                    w.q()
        elif k == "adv": w.advance(r.choice([1, 1, 2, 3, 5, 6, 7, 10, 13, 20, 29, 30, 31, 37, 40, 50, 90, 100, 180, 181, 400, 1000, 5400]))
        elif k == "susp": w.suspend(r.choice([5, 30, 100, 1000])); w.q(); w.advance(r.choice([5, 40, 40]))
        elif k == "net": w.net(r.random() < .6)
        elif k == "kill":
            if r.random() < .5: w.kill()
            else: w.q(); w.shutdown()
            w.start(gconf()); w.q()
    w.q(); w.net(True); w.q()
    w.status(); w.q(); w.dump(); w.q()
    for a in names: w.show(a)
    w.q(); w.fwd(31); w.replyall(lambda: w.tok(1000)); w.endall(); w.fwd(200); w.replyall(lambda: w.tok(1000)); w.endall()
    w.dump(); w.q(); w.status(); w.q()


PROFILES = {
    "mixed": {},
    "reload": dict(w=dict(reload=5, restore=.4, kill=.02), secp=.25),
    "restore": dict(w=dict(restore=4, dump=3, revoke=3, kill=.4)),
    "refresh": dict(w=dict(refresh=7, adv=9, reload=.6, kill=.02, revoke=.5), net=.35),
    "fail": dict(w=dict(net=2, adv=10, reply=10, reload=.3, revoke=.3, kill=0), net=.6, ok=.3, tifp=.95),
    "auth": dict(w=dict(cb=12, reply=10, show=8, cbbad=2)),
    "events": dict(w=dict(revoke=5, cmd=4, reply=10), evp=.95),
    "notify": dict(w=dict(adv=14, show=6, cb=3, reload=2)),
    "suspend": dict(w=dict(susp=4, adv=8, kill=0)),
    "burst": dict(w=dict(q=2)),
}


# ------------------------------------------------------------------------------------------------ behaviours generated from the specification
def gen_conf(w, i):
    """The configurations of spec/Gen.tla."""
    X = lambda v, rbe, ral, rr: sx(w, "x", v, rbe=rbe, ral=ral, rr=rr)
    Y = lambda v, rbe, ral, rr: sx(w, "y", v, rbe=rbe, ral=ral, rr=rr)
    full = lambda iv, **kw: dict(dict(ALLCMD, interval=iv), **kw)
    return [None,
            lambda: conf(X(0, 20, None, 10), Y(0, None, None, None), **full(900)),
            lambda: conf(X(0, 50, 60, 5), Y(3, 0, None, 25), notify="N2", tif="T2", event="V2", interval=40),
            lambda: conf(X(4, 20, None, 10), Y(0, 20, 100, 10), err="R", event="V", interval=20),
            lambda: conf(X(0, 20, None, 10), **full(60)),
            lambda: conf(Y(0, 10, None, 30), notify="N", err="R2", tif="T", interval=7)][i]()


def generated(w, k):
    """Replay the k-th behaviour generated from the specification."""
    b = gen.load()[k % len(gen.load())]
    w.start(gen_conf(w, b["c"])); w.q()
    dumps = []
    for e in b["log"]:
        if w.alive and (e.get("q") or len(w.ctls) + len(w.https) >= 5): w.q()
        c, a = e["k"], e.get("a")
        if c == "show": w.show(a)
        elif c == "refresh": w.refresh(a)
        elif c == "revoke": w.revoke(a)
        elif c == "status": w.status()
        elif c == "dump":
            w.dump(); w.q(); dumps.append(w.last_dump)
        elif c == "restore":
            if e["i"] <= len(dumps): w.restore(w.dumps[dumps[e["i"] - 1]])
        elif c == "reload": w.reload(gen_conf(w, e["i"]))
        elif c == "cb":
            ns = sorted(n for n, x in w.nacct.items() if x == a)
            if not ns: continue
            n = ns[-1] if e["cur"] else w.rng.choice(ns[:-1] or ns)
            w.callback(n, error="werr") if e["err"] else w.callback(n, code=f"gc{w.rng.randrange(10 ** 6)}")
        elif c == "reply":
            ps = [p for p, d in w.posts.items() if d["kind"] == e["w"] and d["path"] == "/" + a]
            if not ps: continue
            p = (max if e["live"] else min)(ps)
            w.reply(p, {"ok": lambda: w.tok(e["ein"], e["rt"]), "net": lambda: NET(w.rng.choice(["rst", "close", "trunchead"])), "trunc": lambda: TRUNC(), "status": lambda: STATUS(w.rng.choice([400, 401, 500, 503])),
                        "ejson": lambda: EJSON(f"gerr{w.rng.randrange(1000)}"), "garb": lambda: BAD("{}")}[e["r"]]())
        elif c == "cmd":
            cs = [x for x, d in w.cmds.items() if d["kind"] == e["w"]]
            if cs: w.cmd_end(min(cs), e["code"] and w.rng.choice([e["code"], 209]))
        elif c == "adv": w.advance(e["d"])
        elif c == "susp": w.suspend(e["d"])
        elif c == "net": w.net(e["up"])
        elif c == "kill": w.kill()
        elif c == "start": w.start(gen_conf(w, e["i"])); w.q()
        else: raise HarnessError(f"unknown stimulus {c}")
    if not w.alive: return
    w.q(); w.net(True); w.q(); w.status(); w.q(); w.dump(); w.q(); w.show("x"); w.show("y"); w.q(); w.fwd(31); w.replyall(); w.endall(); w.fwd(200); w.replyall(); w.endall(); w.probe()


# ------------------------------------------------------------------------------------------------ running a scenario by name
def race_rounds(rnd, n, states=None, ops=None):
    cs = [c for c in race_combos() if (states is None or c[0] in states) and (ops is None or c[3] in ops)]
    return [rnd.choice(cs) + (rnd.choice(OPS),) for _ in range(n)]


def race_snap(w, r, rounds=7):
    """Several accounts: while one request is held up at one of its scheduling points, others are served completely, one after another."""
    names = "abcde"[:r.choice([3, 4, 5])]
    w.vars = {a: 0 for a in names}
    def gc(skip=()):
        return conf(*[sx(w, a, w.vars[a], rr=20) for a in names if a not in skip], event="V", **({"notify": "N", "err": "R"} if r.random() < .5 else {}))
    def do(op, a):
        if op == "show": w.show(a)
        elif op == "refresh": w.refresh(a)
        elif op == "revoke": w.revoke(a)
        elif op == "status": w.status()
        elif op == "dump": w.dump()
        elif op == "restore": w.restore(r.choice(ds) if r.random() < .6 else w.forge({b: (f"ft-{b}-{w.nid}", f"fr-{b}-{w.nid}", 900) for b in names if r.random() < .7}))
        elif op == "sec":
            for b in names:
                if r.random() < .6: w.vars[b] = r.choice([0, 1, 3, 4, 5])
            w.reload(gc())
        elif op == "remove": w.reload(gc(r.sample(names, r.randrange(1, len(names)))))
        elif op == "back": w.reload(gc())
        elif op == "cb" and w.nonce(a): w.callback(w.nonce(a), code=f"cs{w.nid}")
        elif op == "reply":
            p = w.post()
            if p: w.reply(p, w.tok(r.choice([50, 400])) if r.random() < .8 else STATUS(400))
    w.gates = False
    w.start(gc()); w.q()
    ds = [w.lastdump()]
    for i in range(rounds):
        w.gates = False; w.ungate()
        w.reload(gc()); w.q()
        for a in names:
            k = r.randrange(5)
            if k == 0: w.ask(a)
            elif k < 3: w.get(a, r.choice([100, 1000]))
            elif k == 3: w.auth(a)
            w.endall()
        ds.append(w.lastdump())
        w.settle(); w.gates = True; w.regate()
        do(["status", "dump", "status", "dump", "restore", "sec", "remove"][i % 7], "a"); w.settle()
        for _ in range(r.randrange(0, 9)):
            if not w.step(): break
        held = set(w.gated())
        ops = [r.choice(["revoke", "show", "refresh", "restore", "sec", "remove", "back", "cb", "cb", "reply", "reply"]) for _ in range(r.choice([2, 3, 4]))] + ["status", "dump"][:r.randrange(3)]
        o = r.sample(names, len(names))
        if r.random() < .5: o.sort()
        for j, op in enumerate(ops):
            do(op, o[-1 - j % len(o)]); w.settle(); w.run_others(held)
        n = 0
        while w.gated() and n < 200: w.step(); n += 1
        w.quiet()
        w.ungate(); w.gates = False
        w.status(); w.q(); w.dump(); w.q(); w.replyall(); w.endall()
        for a in names:
            if r.random() < .6: w.revoke(a)
        w.q(); w.endall()


def race_events(w, r, rounds=5):
    """Events, failures and notifications arrive while the threads which deal with the previous ones are at any of their scheduling points."""
    names = "abc"
    w.gates = False
    w.start(conf(*[sx(w, a, rr=10) for a in names], interval=30, **ALLCMD)); w.q()
    for i in range(rounds):
        w.gates = False; w.ungate()
        for a in names:
            k = r.randrange(4)
            if k == 0: w.ask(a)
            elif k < 3: w.get(a, 500)
            else: w.auth(a)
        w.endall(); w.settle()
        w.gates = True; w.regate()
        for _ in range(r.choice([10, 20, 30])):
            a, k = r.choice(names), r.randrange(12)
            if k < 3:
                if w.cmds: w.cmd_end(r.choice(list(w.cmds)), r.choice([0, 0, 1]))
            elif k == 3: w.revoke(a)
            elif k == 4: w.refresh(a)
            elif k == 5:
                p = w.post()
                if p: w.reply(p, w.tok(300) if r.random() < .7 else STATUS(400))
            elif k == 6 and w.nonce(a): w.callback(w.nonce(a), **({"code": f"ce{w.nid}"} if r.random() < .6 else {"error": f"dx{w.nid}"}))
            elif k == 7: w.show(a)
            elif k == 8 and r.random() < .3: w.advance(r.choice([1, 10, 30]))
            w.settle()
            held = set(r.sample(sorted(w.gated()), min(len(w.gated()), r.choice([0, 1, 1, 2]))))
            if r.random() < .5: w.run_others(held, r.choice([1, 3, 80]))
            if len(w.ctls) + len(w.https) > 4: w.run_others(set())
        n = 0
        while w.gated() and n < 300: w.step(); n += 1
        w.quiet(); w.ungate(); w.gates = False
        w.status(); w.q(); w.endall(); w.replyall(); w.endall()
        for a in names: w.revoke(a)
        w.q(); w.endall()


def race_queue(w, r, rounds=6):
    """A command ends; the thread that ran it is held up at each of its scheduling points while the next events come."""
    names = "abc"
    w.gates = False
    w.start(conf(*[sx(w, a) for a in names], event="V")); w.q()
    ks = list(range(rounds)); r.shuffle(ks)
    for k in ks:
        w.gates = False; w.ungate()
        for a in names: w.get(a, 500)
        w.endall(); w.settle(); w.gates = True; w.regate()
        w.revoke("a"); w.settle(); w.run_others(set())
        first = set(w.cmds)
        end = r.random() < .8
        if end: w.endall_now(first); w.settle()
        for _ in range(k):
            if not w.step(): break
        held = set(w.gated())
        for a in r.sample("bc", r.choice([1, 2])): w.revoke(a); w.settle(); w.run_others(held, r.choice([1, 2, 80, 80]))
        if not end: w.endall_now(first); w.settle()
        n = 0
        while w.gated() and n < 200: w.step(); n += 1
        w.quiet(); w.ungate(); w.gates = False; w.endall()
        for a in names: w.revoke(a)
        w.q(); w.endall()


RELOADISH = ["sec", "remove", "readd", "nonsec", "badreload", "secsec"]
FAMILIES = {
    "race_queue": lambda w, r: race_queue(w, r),
    "race_events": lambda w, r: race_events(w, r),
    "race_snap": lambda w, r: race_snap(w, r),
    "race": lambda w, r: race(w, race_rounds(r, 6)),
    "race_reload": lambda w, r: race(w, race_rounds(r, 6, ops=RELOADISH)),
}


def make(name, rnd):
    if name in DIRECTED: return Sim(rnd, **DIRECTED[name][2])
    return Sim(rnd)


def play(w, name, rnd):
    if name in DIRECTED: DIRECTED[name][0](w)
    elif name in FAMILIES: FAMILIES[name](w, rnd)
    elif name.startswith("gen."): generated(w, int(name[4:]))
    elif name in PROFILES: walk(w, 150, PROFILES[name])
    else: raise HarnessError(f"no such scenario: {name}")
    if w.alive and w.proc.poll() is None:
        w.quiet(); w.listening(); w.files()


import scen2
FAMILIES.update(scen2.FAMILIES2)
