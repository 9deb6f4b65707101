"""Scenarios: command line, starting and stopping, hostile clients, configuration files."""
import getpass, os, re, signal, socket, ssl, struct
from sim import *
import scen, pz
from scen import directed, sx, ALLCMD, _states4, _prep7, _fail6, walk, PROFILES, rnd_reply


# ------------------------------------------------------------------------------------------------ command line
@directed("C22")
def cli_states(w):
    """Every command in every state of an account."""
    w.go(*_states4(w), **ALLCMD)
    _prep7(w)
    w.viacli = 1
    for a in ["p", "e", "a", "r", "n", "f", "m", "nosuch"]:
        for u in (False, True):
            w.show(a, u); w.refresh(a, u)
        w.q(); w.status(); w.dump(); w.q()
    w.info_cmd(); w.cli("info", opts=["-j"]); w.cli("info"); w.q()
    w.replyall(); w.endall(); w.probe()
    d = w.dumps[w.last_dump]
    for a in ["p", "a", "r", "nosuch"]: w.revoke(a); w.q(); w.show(a, False); w.q()
    for x in (d, d[:-1], b"", b"junk", d + b"x"): w.restore(x); w.q()
    for a in ["a", "r"]: w.revoke(a)
    w.q(); w.restore(d); w.q(); w.probe(); w.endall()
    w.cli("dump", stdout="full"); w.cli("status", stdout="full"); w.q()
    w.set_conf(conf(sx(w, "a"), sx(w, "b"), notify="N")); w.cli("reload"); w.q(); w.show("b"); w.show("p"); w.q()
    for kw in (dict(text="junk"), dict(text=""), dict(missing=True)):
        w.set_conf(None, **kw); w.cli("reload"); w.q()
    w.probe(); w.endall()
    w.cli("shutdown")
    for c in ("show", "refresh", "revoke"):
        w.cli(c, "a"); w.cli(c, "a", False)
    for c in ("dump", "status", "reload", "shutdown", "info"): w.cli(c)
    w.cli("info", opts=["-j"]); w.cli("restore", data=d); w.cli("restore", data=b"")


@directed("C22 C05")
def cli_expiry(w):
    """show around the expiry of a token."""
    w.viacli = 1
    w.go(sx(w, "x", rr=50), sx(w, "y"), event="V")
    w.get("x", 100); w.get("y", 60, None); w.endall(); w.net(False)
    for i in range(12):
        w.fwd(9 + i % 2)
        w.show("x"); w.show("y", False); w.q(); w.refresh("x"); w.q(); w.status(); w.q()
    w.net(True); w.fwd(50); w.replyall(lambda: w.tok(300)); w.show("x"); w.q(); w.endall()


@directed("C22")
def cli_usage(w):
    w.go(sx(w, "x"), event="V"); w.get("x"); w.endall(); d = w.lastdump(); w.revoke("x"); w.q(); w.endall(); w.get("x"); w.endall()
    for up in (True, False):
        for a in [(), ("show",), ("show", "x", "y"), ("refresh",), ("refresh", "x", "y"), ("revoke",), ("revoke", "x", "x"), ("frob",), ("frob", "x"), ("dump", "x"), ("restore", "x"), ("reload", "x"),
                  ("shutdown", "x"), ("status", "x"), ("info", "x"), ("server", "x"), ("show", "-x", "x"), ("refresh", "-z", "x"), ("-h",), ("show", "-h"), ("revoke", "-h", "x"), ("dump", "-h"),
                  ("shutdown", "-h"), ("reload", "-h"), ("restore", "-h"), ("status", "-h"), ("server", "-h"), ("", "x"), ("SHOW", "x"), ("show ", "x"), ("revoke", "-u", "x")]:
            w.usage(*a)
        for a in [("show", "-h", "x"), ("show", "-u", "-h", "x"), ("refresh", "-h", "x"), ("refresh", "-u"), ("status", "-h"), ("info", "-h"), ("info", "-j", "-h"), ("info", "-j", "x"), ("revoke", "-v", "-h", "x"), ("dump", "-v", "-h"), ("show", "-j", "x"), ("status", "-u"), ("dump", "-d"), ("info", "-z"),
                  ("restore", "-h"), ("restore", "x"), ("restore", "-v", "-h")]:
            w.usage(*a, data=d if a[0] == "restore" else b"")
        if up:
            w.q(); w.probe(); w.cli("dump", opts=["-v"]); w.cli("status", opts=["-vv"]); w.cli("show", "x", opts=["-v"]); w.cli("refresh", "x", opts=["-vvv"]); w.cli("info", opts=["-j"]); w.cli("info"); w.q(); w.cli("shutdown")
        else: w.cli("info", opts=["-j"]); w.cli("info")
        for a in (("-h",), ("x",), ("-x",), ("-c",), ("--config",), ("-h", "x"), ("-z", "x")):
            if not up: w.usage("server", "-d", "-c", w.conf_path, *a); w.usage("server", "-d", *a, "-c", w.conf_path) if a[0] not in ("-c", "--config") else None


@directed("C22 C16")
def cli_dies(w):
    """The server goes away between request and reply."""
    d = None
    for mode in ("gate", True):
        for c, a in (("dump", None), ("show", "x"), ("refresh", "x"), ("revoke", "x"), ("status", None), ("reload", None), ("restore", None)):
            w.go(sx(w, "x"), event="V"); w.get("x"); w.endall(); d = w.lastdump()
            if c == "reload": w.set_conf(conf(sx(w, "x", 3)))
            w.cli(c, a, data=d if c == "restore" else b"", frozen=mode)
            if c == "show": w.cli(c, a)


@directed("C22 C18")
def cli_names(w):
    """Account names with unusual characters."""
    names = ["a b", "a:b", "-x", "withurl", " lead", "trail ", "tab\tx", "ünï", "a\\\\b", "q\\\"q", "x/y", "%s", "$HOME", "a'b", "0"]
    ch = {n: ([n] if "\\" not in n else ["a", "\\\\", "b"] if n.startswith("a") else ["q", "\\\"", "q"]) for n in names}
    accts = []
    for i, n in enumerate(names):
        x = sx(w, "n%d" % i); x["name"] = ch[n]; accts.append(x)
    w.go(*accts, event="V", notify="N", err="R")
    w.viacli = 1
    for i, n in enumerate(names):
        a = unesc(ch[n])
        if a.startswith("-"):
            Sim.show.__get__(w)(a) if False else World.show(w, a); w.q(); World.revoke(w, a); w.q(); w.endall(); continue
        w.show(a); w.q(); w.show(a, False); w.q(); w.endall()
        w.callback(w.nonce(a), code="c%d" % i); w.q(); w.replyall(); w.endall(); w.show(a); w.refresh(a); w.q()
        if i % 3 == 0: w.revoke(a); w.q()
        w.replyall(); w.endall()
    w.viacli = 0
    w.dump(); w.q()


def cli_walk(w, r):
    w.viacli = .7
    walk(w, 70, dict(w=dict(info=1, badreload=1, restore=1.5, revoke=2.5, kill=.5)))
    if w.alive and r.random() < .7: w.q(); w.cli("shutdown")
    elif w.alive: w.kill()
    for c in ("show", "status", "dump", "restore", "reload"):
        w.set_conf(None, text="x"); w.cli(c, "x" if c == "show" else None)


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


@directed("C30 C18 C22")
def listen_where(w):
    """Listening sockets, and what info says about them."""
    try:
        with socket.socket(socket.AF_INET6) as s6: s6.bind(("::1", 0))
        v6 = [("[::1]:0", "127.0.0.1:0"), ("127.0.0.1:0", "[::1]:0")]
    except OSError: v6 = []
    p = free_port()
    for i, (h, s) in enumerate([(None, None), ("none", None), (None, "none"), ("127.0.0.2:0", "127.0.0.3:0"), ("0.0.0.0:0", None), (None, "0.0.0.0:0"), ("localhost:0", "localhost:0"), ("none", "127.0.0.5:0"),
                                (f"127.0.0.1:{p}", None), ("none", f"127.0.0.1:{p}"), (f"127.0.0.1:{p}", f"127.0.0.2:{p}"), *v6]):
        http, https = h != "none", s != "none"
        w.conf_via(["abs", "rel", "HOME", "XDG_CONFIG_HOME"][i % 4])
        x = [acct(w, "x", redirect="http://localhost/")] * http + [acct(w, "y", redirect="https://localhost/")] * https
        w.start(conf(*x, http=h, https=s, event="V")); w.q()
        w.info_cmd(); w.q(); w.cli("info"); w.cli("info", opts=["-j"]); w.q()
        for a in "x" * http + "y" * https: w.ask(a)
        if not (":" in w.http_addr + w.https_addr or v6 and (h, s) in v6):
            for a in "x" * http + "y" * https: w.callback(w.nonce(a), code="c" + a); w.q(); w.replyall(); w.endall()
        w.listening()
        w.re(*x, acct(w, "z", redirect="https://localhost/z" if https else "http://localhost/z"), http="none" if not http else "127.0.0.9:0", https="none" if not https else "127.0.0.8:0"); w.q()
        w.probe(); w.listening(); w.info_cmd(); w.q(); w.second(); w.q(); w.listening()
        w.set_conf(conf(*x, http=h, https=s)); w.cli("reload"); w.q(); w.info_cmd(); w.q()
        (w.kill if i % 2 else w.shutdown)()
        w.cli("info"); w.cli("info", opts=["-j"])


@directed("C30", background=True)
def listen_bg(w):
    for i in range(2):
        w.conf_via(["rel", "HOME"][i])
        w.go(sx(w, "x"), sx(w, "y", 13)); w.q(); w.listening(); w.info_cmd(); w.q()
        w.ask("y"); w.callback(w.nonce("y"), code="c"); w.q(); w.replyall(); w.endall(); w.cli("info", opts=["-j"]); w.listening()
        w.re(sx(w, "x", 3), sx(w, "y", 13)); w.q(); w.probe()
        w.kill()


# ------------------------------------------------------------------------------------------------ starting and stopping
def use_tmpdir(w):
    """Without $XDG_RUNTIME_DIR."""
    w.rtmode = "tmp"
    w.sockp = os.path.join(w.tmp, "runtime-" + getpass.getuser(), "pizauth", "pizauth.sock")


def perms(w, r):
    """Directories left by somebody else."""
    for d in (os.path.dirname(os.path.dirname(w.sockp)), os.path.dirname(w.sockp)):
        if os.path.isdir(d): os.chmod(d, r.choice([0o700, 0o777, 0o755, 0o750, 0o701, 0o707]))


@directed("C23 C19")
def start_cycle(w):
    """Every way of ending is followed by a normal start."""
    for i, how in enumerate(["kill", "term", "int", "quit", "shutdown", "segv", "hup", "cli", "kill"]):
        w.go(sx(w, "x"), sx(w, "y"), **ALLCMD)
        w.probe(); w.auth("x"); w.ask("y")
        if i % 2: w.reply(w.post("auth") or 0, w.tok(100)); w.q(); w.refresh("x"); w.q()
        for k in range(2): w.second(busy=k == 1); w.q()
        w.probe(False)
        if how == "shutdown": w.shutdown()
        elif how == "cli": w.q(); w.cli("shutdown")
        else: w.kill({"kill": signal.SIGKILL, "term": signal.SIGTERM, "int": signal.SIGINT, "quit": signal.SIGQUIT, "segv": signal.SIGABRT, "hup": signal.SIGHUP}[how])
        assert w.proc.poll() is not None
    w.go(sx(w, "x"), **ALLCMD); w.probe()


@directed("C23")
def start_again(w):
    """A second server, under every other name for the same directory, in the background or not, at every stage of the first one's life."""
    for tmp in (False, True):
        if tmp: use_tmpdir(w)
        for bg in (False, True):
            w.go(sx(w, "x"), event="V"); w.auth("x")
            for i, al in enumerate([None, "link", "@/", "@//", "@/.", "@/../%", "link"]):
                w.second(alias=al, detach=(i % 2 == 0) == bg); w.q()
                if i == 1: w.reply(w.post("auth") or 0, w.tok(100)); w.q(); w.endall(); w.show("x"); w.q()
                if i == 3: w.second(alias=al, busy=True, detach=bg); w.q()
                if i == 4: w.second(extra=["-c", "/nonexistent/c"], detach=bg); w.q()
            w.probe(); w.replyall(); w.endall()
            w.kill()
    w.go(sx(w, "x"), event="V"); w.probe()


@directed("C22")
def cli_odd(w):
    """Whatever the token is, show prints just that and a line break."""
    w.go(sx(w, "x"), event="V"); w.viacli = 1
    for i, t in enumerate(pz.ODD + ["@\n\n", "\n@", "@\r\n", "@\na", "@\x1b[1m", "\u2028@", "@\t", "@" * 2000, "error:@", "@%s%n{}"]):
        t = t.replace("@", "oddtok%d" % i); w.secrets.add(t)
        r = w.tok(1000); r["tok"] = t
        w.auth("x"); w.reply(w.post("auth") or 0, r); w.q(); w.endall(); w.show("x"); w.show("x", False); w.q(); w.revoke("x"); w.q(); w.endall()


@directed("C23")
def start_perms(w):
    for i, m in enumerate([0o777, 0o755, 0o700, 0o711, 0o770, 0o500]):
        w.start(conf(sx(w, "x"), event="V"), umask=[0, 0o22, 0o77, 0, 0o777, 0][i]); w.q(); w.probe()
        for d in (w.rt, os.path.dirname(w.sockp)): os.chmod(d, m)
        if i % 2: w.kill()
        else: w.shutdown()
    # directories that do not exist yet
    import shutil
    shutil.rmtree(w.rt); w.start(conf(sx(w, "x")), umask=0); w.q(); w.probe(); w.kill()
    shutil.rmtree(os.path.dirname(w.sockp)); w.start(conf(sx(w, "x")), umask=0); w.q(); w.probe(); w.kill()
    use_tmpdir(w)
    for um in (0, 0o22): w.start(conf(sx(w, "x")), umask=um); w.q(); w.probe(); w.second(); w.q(); w.kill()
    perms(w, w.rng); w.start(conf(sx(w, "x"))); w.q(); w.probe()


@directed("C23 C18")
def start_bad(w):
    """A server that cannot start says so, and does not disturb the next one - nor a running one."""
    bad = [b"", b"x", b"account \"x\" { }", b"\xff\xfe", b"auth_notify_cmd = \"x\";", render(conf(sx(w, "x"))).replace("client_id", "client_iq", 1), render(conf(sx(w, "x")))[:-2]]
    for t in bad: w.start(None, text=t, fail_ok=True)
    w.start(conf(sx(w, "x"), http="none", https="none"), fail_ok=True)
    w.start(conf(sx(w, "x"), sx(w, "x2"), S("http_listen", "127.0.0.1:0"), http="none"), fail_ok=True)
    w.start(conf(sx(w, "x"), http="nonsense"), fail_ok=True, listen_bad=True)
    w.start(conf(sx(w, "x"), https="127.0.0.1:99999"), fail_ok=True, listen_bad=True)
    w.go(sx(w, "x"), event="V"); w.get("x"); w.endall()
    for t in bad[:4]:
        with open(w.conf_path, "wb") as f: f.write(t)
        w.second(busy=True); w.q(); w.probe()
    w.kill()
    for t in bad[:2]: w.start(None, text=t, fail_ok=True)
    w.go(sx(w, "x"), event="V"); w.probe()
    p = w.http_port
    w.kill()
    # ports: fixed by the configuration, or given by the system
    w.start(conf(sx(w, "x"), http=f"127.0.0.1:{p}", https="none")); w.q(); w.ask("x"); w.info_cmd(); w.q(); w.shutdown()
    w.start(conf(sx(w, "y", 13), https=f"127.0.0.1:{p}", http="none")); w.q(); w.ask("y"); w.callback(w.nonce("y"), code="c"); w.q(); w.info_cmd(); w.q(); w.kill()
    w.start(conf(sx(w, "x"), http=f"localhost:{p}")); w.q(); w.ask("x"); w.info_cmd(); w.q()


def start_walk(w, r):
    if r.random() < .2: use_tmpdir(w)
    last = None
    for i in range(r.choice([10, 14])):
        x = r.random()
        if x < .25:
            for _ in range(r.choice([1, 1, 2])): w.start(conf(sx(w, "x")), kill_after=r.choice([0, .001, .003, .006, .01, .015, .02, .03]) * r.random())
        elif x < .35: w.start(None, text=r.choice(["", "x", "account"]), fail_ok=True)
        elif x < .42:
            try: os.unlink(w.sockp)
            except OSError: pass
            if os.path.isdir(os.path.dirname(w.sockp)): open(w.sockp, "w").close()
        if r.random() < .4: perms(w, r)
        w.start(conf(sx(w, "x"), sx(w, "y", r.choice([0, 13])), **ALLCMD), umask=r.choice([None, 0, 0o22])); w.q()
        w.probe(r.random() < .5)
        for _ in range(r.choice([1, 3])):
            k = r.randrange(8)
            if k == 0: w.auth("x")
            elif k == 1: w.get("y", 100)
            elif k == 2: w.second(busy=r.random() < .4); w.q()
            elif k == 3: w.refresh("x")
            elif k == 4 and last: w.restore(last); w.q()
            elif k == 5: last = w.lastdump()
            elif k == 6: w.net(False); w.refresh("y"); w.q(); w.fwd(30); w.net(True)
            elif k == 7: w.second(); w.q(); w.second(busy=True); w.q()
        w.status(); w.q()
        k = r.random()
        if k < .45: w.kill(r.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGINT]))
        elif k < .7: w.q(); w.shutdown()
        else: w.q(); w.cli("shutdown")
    w.go(sx(w, "x"), event="V"); w.probe()


# ------------------------------------------------------------------------------------------------ hostile clients
def noise(w, port, data, tls=False, rst=False):
    """Bytes that are no complete request."""
    try:
        s = socket.create_connection(("127.0.0.1", port), timeout=2)
        if tls:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); ctx.check_hostname = False; ctx.verify_mode = ssl.CERT_NONE
            s = ctx.wrap_socket(s, server_hostname="localhost")
        for k in range(0, len(data), 4096): s.sendall(data[k:k + 4096])
        if rst: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
    except OSError: pass


def req(st, size=None, shape="hdrs", host="localhost:1", code="c", method=b"GET"):
    """A GET request for state st of exactly `size` bytes."""
    q = (f"/?state={st}&code={code}").encode()
    def mk(pad):
        if shape == "line": return method + b" " + q + b"&p=" + b"a" * pad + b" HTTP/1.1\r\nHost: " + host.encode() + b"\r\n\r\n"
        if shape == "one": return method + b" " + q + b" HTTP/1.1\r\nHost: " + host.encode() + b"\r\nX: " + b"a" * pad + b"\r\n\r\n"
        if shape == "first": return method + b" " + q + b" HTTP/1.1\r\nX: " + b"a" * pad + b"\r\nHost: " + host.encode() + b"\r\n\r\n"
        if shape == "cont":
            x = b""
            while len(x) + 102 <= pad: x += b"\r\n " + b"b" * 99
            return method + b" " + q + b" HTTP/1.1\r\nHost: " + host.encode() + b"\r\nX: " + x + b"a" * (pad - len(x)) + b"\r\n\r\n"
        x = b""
        while len(x) + 102 <= pad: x += b"\r\nY: " + b"b" * 97
        return method + b" " + q + b" HTTP/1.1\r\nHost: " + host.encode() + b"\r\nX: " + x + b"a" * (pad - len(x)) + b"\r\n\r\n"
    return mk(0 if size is None else size - len(mk(0)))


SHAPES = ["line", "one", "first", "cont", "hdrs"]


@directed("C26 C19")
def http_oversize(w):
    w.go(sx(w, "x"), sx(w, "y", 13), err="R", event="V")
    w.ask("x"); w.ask("y")
    for sh in SHAPES:
        for size in (16386, 17000, 40000, 200000, 2000000):
            for a in "xy":
                if a == "y" and size not in (17000, 200000): continue
                n = w.nonce(a)
                w.callback(n, code="c", raw=req(w.nstates[n], size, sh, "localhost:%d" % (w.https_port if a == "y" else w.http_port)), lossy=True); w.q()
        w.status(); w.q()
    # endless: no end of line at all
    for b in (b"a" * 3000000, b"GET /" + b"a" * 3000000, b"GET / HTTP/1.1\r\n" + b"X: y\r\n" * 300000, b"GET / HTTP/1.1\r\nHost: " + b"h" * 2000000, b"GET / HTTP/1.1\r\nHost: x\r\n" + b" \xff" * 500000, b" " * 1000000):
        for https in (False, True):
            w.callback(0, state="", raw=b, https=https, lossy=True); w.q()
    w.probe(False)
    for a in "xy": w.callback(w.nonce(a), code="good"); w.q()
    w.replyall(); w.endall(); w.probe()


@directed("C26 C03 C11")
def http_sizes(w):
    """Requests up to the limit are processed."""
    w.go(sx(w, "x"), sx(w, "y", 13), err="R", event="V")
    k = 0
    for sh in SHAPES:
        for size in (500, 4095, 8191, 8192, 8193, 10000, 16000, 16383, 16384):
            a = "xy"[k % 2]; k += 1
            n = w.ask(a)
            w.callback(n, code="c", raw=req(w.nstates[n], size, sh, "localhost:%d" % (w.https_port if a == "y" else w.http_port))); w.q()
            p = w.post("auth")
            if p: w.reply(p, w.tok(1000)); w.q()
            w.show(a); w.q(); w.revoke(a); w.q(); w.endall()
    w.probe()


@directed("C26 C20")
def http_dribble(w):
    """The parts of a request arrive one by one; between them nothing happens (but everything else does)."""
    w.go(sx(w, "x"), sx(w, "y"), err="R", event="V")
    for size in (300, 9000, 17000):
        n = w.ask("x")
        b = req(w.nstates[n], size, "first", "localhost:%d" % w.http_port)     # (the server takes the end of input for the end of the headers)
        s = socket.create_connection(("127.0.0.1", w.http_port), timeout=5)
        k = 0
        while k < len(b) - 40:
            m = w.rng.choice([1, 10, 500, 2000]) + size // 12
            try: s.sendall(b[k:min(k + m, len(b) - 40)])
            except OSError: break
            k += m; w.q()
        s.close(); w.q()
        w.status(); w.q(); w.show("y"); w.q()
    w.callback(w.nonce("x"), code="good"); w.q(); w.replyall(); w.endall(); w.probe()


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
        k = r.randrange(5)
        i = r.randrange(len(b) + 1)
        if k == 0 and i < len(b): b[i] = r.randrange(256)
        elif k == 1: b[i:i] = bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 5])))
        elif k == 2: del b[i:i + r.choice([1, 1, 3, 10])]
        elif k == 3: b[i:i] = b[i:i + 20] * r.choice([1, 2, 5])
        elif k == 4: b[i:i] = r.choice([b"\r\n", b"\n", b":", b" ", b"\0", b"\xff", b"%", b"\r\n\r\n", b"=", b"&", b"?", b"//", b"@", b"#", b"[", b"\xc3"])
    return bytes(b)


def effective(w, b):
    """Could b be a control request with an effect?"""
    c, sep, rest = b.partition(b":")
    if not sep: return False
    if c in (b"dump", b"info", b"status", b"reload", b"shutdown"): return rest == b""
    return c in (b"showtoken", b"refresh", b"revoke") and any(rest.endswith(a.encode()) for a in w.accounts()) or c == b"restore" and len(rest) > 200 and True


def hostile(w, r):
    w.go(sx(w, "x", rr=20), sx(w, "y", 13), sx(w, "z"), interval=30, **ALLCMD)
    w.ask("x"); w.get("z", 300); w.endall()
    good = [b"showtoken:withurl x", b"showtoken:withouturl z", b"refresh:withurl z", b"revoke:z", b"status:", b"dump:", b"info:", b"reload:", b"shutdown:", b"restore:" + w.lastdump()[:60]]
    for i in range(60):
        k = r.random()
        if k < .25:
            b = mutate(r, r.choice(good)) if r.random() < .8 else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 50, 5000])))
            if not effective(w, b): w.bad(b)
        elif k < .5:
            b = mutate(r, req("bogus" + str(i), None, host="localhost:%d" % w.http_port, method=r.choice([b"GET", b"GET", b"POST", b"get"])))
            if b.count(b"\n") == 0: b += b"\r\n\r\n"
            if not b.endswith(b"\n\n") and not b.endswith(b"\n\r\n"): b += b"\r\n\r\n"
            w.callback(0, state="", raw=b, https=r.random() < .4, wf=False, lossy=True)
        elif k < .58:
            a = r.choice("xy"); n = w.nonce(a)
            if n: w.callback(n, code="c", raw=req(w.nstates[n], r.choice([16390, 20000, 60000]), r.choice(SHAPES), "localhost:%d" % (w.https_port if a == "y" else w.http_port)), lossy=True)
        elif k < .66: noise(w, r.choice([w.http_port, w.https_port]), bytes(r.randrange(256) for _ in range(r.choice([0, 1, 100, 3000]))), rst=r.random() < .5)
        elif k < .7: noise(w, w.https_port, b"GET / HTTP/1.1\r\nHo"[:r.randrange(18)], tls=True, rst=r.random() < .5)
        elif k < .76:
            s = socket.socket(socket.AF_UNIX); s.connect(w.sockp)
            try: s.sendall(r.choice([b"", b"sta", b"status", b"x" * 1000, b"showtoken:withurl x"[:r.randrange(19)]]))
            except OSError: pass
            if r.random() < .5: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
        elif k < .84:
            a = r.choice("xyz"); (w.show if r.random() < .6 else w.refresh)(a)
        elif k < .9 and w.posts: w.reply(r.choice(sorted(w.posts)), rnd_reply(w, r))
        elif k < .93 and w.cmds: w.cmd_end(r.choice(sorted(w.cmds)))
        elif k < .97:
            a = r.choice("xy"); n = w.nonce(a)
            if n: w.callback(n, code="hc%d" % i)
        else: w.advance(r.choice([1, 10, 30, 31]))
        if len(w.ctls) + len(w.https) > 3 or r.random() < .5: w.q()
    w.q(); w.probe(); w.replyall(); w.endall(); w.probe()


# ------------------------------------------------------------------------------------------------ configuration files
BADURI = ["", "prov.example/auth", "/auth", "ftp://prov.example/", "mailto:a@b.c", "file:///etc/passwd", "http://", "https://:80", "http://[::1", "http://a b/x", "http://x:99999/", "http://x:port/", "ht!tp://x/", "ws://x/", "://x"]
GOODURI = ["http://prov.example/a", "https://prov.example/a/b?c=d&e=f", "http://prov.example", "https://prov.example:8443/x", "http://127.0.0.1:81/a?b=", "https://sub.prov.example/%7Eq"]
CHUNKS = [["plain"], ["sp ace"], ["q\\\""[:1], "\\\"", "uote"], ["back", "\\\\", "slash"], ["\\\\", "\\\""], ["new\nline"], ["// no comment"], ["ünïcödé ✓"], ["a;b={c},[d]"], ["none"], ["\\\\"], ["tab\t"], ["%20&=?#"], ["'$(x)`"], ["12s"]]
TIMES = [(0, "s"), (1, "s"), (59, "s"), (60, "s"), (1, "m"), (2, "m"), (90, "m"), (1, "h"), (2, "h"), (1, "d"), (30, "d")]
RAW = ["bogus = 1;", "}", "{", "auth_error_cmd = \"x\";", "account", "account \"q\"", "account \"q\" { ", "account q { }", "http_listen = 5;", "refresh_retry = 5;", "refresh_retry = 5 s;", "refresh_retry = \"5s\";",
       "auth_notify_cmd = none;", "auth_notify_cmd = \"x\"", "auth_notify_cmd \"x\";", "= ;", ";", "\"x\"", "auth_notify_interval = -5s;", "auth_notify_interval = 5w;", "auth_notify_interval = 1.5m;", "auth_uri = \"http://x/\";",
       "scopes = [];", "auth_notify_cmd = \"a\\n\";", "auth_notify_cmd = \"unterminated;", "auth_notify_cmd = 'x';", "# comment", "/* c */", "refresh_at_least = 5S;", "auth_notify_cmd = \"x\", \"y\";", "\x00", "auth_notify_cmd == \"x\";"]
RAWA = ["bogus = 1;", "scopes = \"s\";", "scopes = [\"a\" \"b\"];", "scopes = [\"a\",];", "scopes = [a];", "scopes = { };", "auth_uri_fields = [];", "auth_uri_fields = { \"a\" };", "auth_uri_fields = { \"a\": };", "auth_uri_fields = { \"a\" = \"b\" };",
        "client_id = none;", "client_id = 5s;", "client_secret = 12;", "account \"z\" { }", "http_listen = none;", "auth_notify_cmd = \"x\";", "refresh_retry = none;", "refresh_before_expiry = \"x\";", "login_hint;", "auth_uri_fields = { \"a\": \"b\", };", "redirect_uri = ;", ";"]


def cconf(w, r, mut=True):
    """A random configuration.  Security settings of account x stay the same unless mutated."""
    def acc(name, v):
        kw = {}
        x = sx(w, name, v, rbe=None)
        f = x["f"]
        for o in ("refresh_before_expiry", "refresh_at_least", "refresh_retry"):
            if r.random() < .5:
                n, u = r.choice(TIMES); f.append(T(o, n, u))
                if r.random() < .06: f[-1] = T(o, 1, "s", big=r.choice(["huge", "max"]))
        if r.random() < .25 and name != "x":
            for n in f:
                if n["o"] == "client_id": n["v"] = r.choice(CHUNKS)
        if r.random() < .25 and name != "x":
            for n in f:
                if n["k"] == "l": n["v"] = [r.choice(CHUNKS) for _ in range(r.randrange(4))]
        if r.random() < .25 and name != "x":
            for n in f:
                if n["k"] == "m": n["v"] = [[r.choice(CHUNKS), r.choice(CHUNKS)] for _ in range(r.randrange(4))]
        if r.random() < .2 and name != "x":
            for n in f:
                if n["o"] == "auth_uri": n["v"] = [r.choice(GOODURI)]
        r.shuffle(f)
        return x
    o = []
    for n in ("auth_notify_cmd", "error_notify_cmd", "token_event_cmd", "transient_error_if_cmd"):
        if r.random() < .6: o.append(dict(o=n, k="s", v=r.choice(CHUNKS)))
    for n in ("auth_notify_interval", "refresh_before_expiry", "refresh_at_least", "refresh_retry"):
        if r.random() < .4: o.append(T(n, *r.choice(TIMES if n != "auth_notify_interval" else TIMES[1:])))
    k = r.random()
    if k < .1: o.append(S("http_listen", "127.0.0.1:0"))
    elif k < .15: o.append(S("https_listen", "127.0.0.1:0"))
    o.append(acc("x", 0))
    if r.random() < .7: o.append(acc("y", r.choice([0, 2, 5, 10, 13])))
    if r.random() < .3: o.append(acc("z", 0))
    if r.random() < .1: o[-1]["name"] = r.choice(CHUNKS)
    r.shuffle(o)
    if not mut: return o
    import copy
    o = copy.deepcopy(o)
    for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
        accs = [n for n in o if n["k"] == "a"]
        f = r.choice(accs)["f"] if accs else None
        m = r.randrange(13)
        if m == 0 and o:                                     # repeat an option
            n = copy.deepcopy(r.choice(o))
            if n["k"] == "a": n["name"] = ["again"]
            o.insert(r.randrange(len(o) + 1), n)
        elif m == 1 and f: f.insert(r.randrange(len(f) + 1), copy.deepcopy(r.choice(f)))
        elif m == 2 and f: f.pop(r.randrange(len(f)))         # leave one out
        elif m == 3 and o: o.pop(r.randrange(len(o)))
        elif m == 4: o.insert(r.randrange(len(o) + 1), X(r.choice(RAW)))
        elif m == 5 and f: f.insert(r.randrange(len(f) + 1), X(r.choice(RAWA)))
        elif m == 6 and f:
            c = [n for n in f if n["o"] in ("auth_uri", "token_uri", "redirect_uri")]
            if c: r.choice(c)["v"] = [r.choice(BADURI)]
        elif m == 7:                                         # which callback servers
            for n in r.choice([("http_listen",), ("https_listen",), ("http_listen", "https_listen")]):
                o[:] = [y for y in o if y["o"] != n] + [N(n)]
        elif m == 8 and f: f.append(S("login_hint", "me"))
        elif m == 9 and f and r.random() < .7:
            f[:] = [n for n in f if n["k"] != "m"] + [M("auth_uri_fields", ("login_hint", "you"))] + ([S("login_hint", "me")] if r.random() < .6 and not any(n["o"] == "login_hint" for n in f) else [])
        elif m == 10:
            t = [n for n in o + (f or []) if n["k"] == "t"]
            if t:
                n = r.choice(t); n["big"] = r.choice(["u64", "u64", "max", "huge"]); n["u"] = r.choice("smhd")
                if n["o"] == "auth_notify_interval" and n["big"] == "max": n["u"] = "d"
        elif m == 11 and f:
            c = [n for n in f if n["o"] == "redirect_uri"]
            if c: c[0]["v"] = [r.choice(["https://localhost/z", "http://localhost/z", "http://127.0.0.1/"])]
        elif m == 12 and accs: r.choice(accs)["name"] = r.choice([["x"], ["y"], r.choice(CHUNKS)]) if len({unesc(n["name"]) for n in accs}) == len(accs) and r.random() < .5 else ["u%d" % r.randrange(9)]
    return o


def due(w, a, ast, got, exp):
    """When the token is to be refreshed according to the file (only used to choose interesting moments)."""
    g = {n["o"]: n for n in ast if n["k"] == "t"}
    f = {n["o"]: n for x in ast if x["k"] == "a" and unesc(x["name"]) == a for n in x["f"] if n["k"] == "t"}
    def v(o, d):
        n = f.get(o) or g.get(o)
        return d if n is None else 10 ** 9 if n["big"] != "no" else n["n"] * {"s": 1, "m": 60, "h": 3600, "d": 86400}[n["u"]]
    return min(exp - v("refresh_before_expiry", 90), got + v("refresh_at_least", 5400)), v("refresh_retry", 40)


def config_walk(w, r):
    first = cconf(w, r, False)
    w.start(first, r); w.q()
    got = {}
    for i in range(22):
        ast = cconf(w, r, r.random() < .75)
        w.reload(ast, r); w.q()
        ok = w.last.get("k") == "ok"
        if ok: w.ast = ast
        w.dump(); w.q()
        if r.random() < .3: w.status(); w.q()
        names = w.accounts()
        a = r.choice(names)
        if r.random() < .5: w.ask(a)
        if r.random() < .3: w.get(a, r.choice([300, 4000, 100000]))
        if r.random() < .35 and "x" in names:
            # the moments at which the settings take effect
            w.revoke("x"); w.q(); w.endall()
            e = r.choice([200, 4000, 8000])
            if w.get("x", e):
                d, rr = due(w, "x", w.ast, w.t, w.t + e)
                if 1 < d - w.t < 10 ** 6: w.fwd(d - w.t - 1); w.fwd(1)
                else: w.fwd(1)
                w.replyall(lambda: NET("rst"))
                if 1 < rr < 10 ** 6: w.fwd(rr - 1); w.fwd(1)
                w.replyall(lambda: w.tok(100000))
        elif r.random() < .3: w.fwd(r.choice([1, 59, 60, 120, 900, 3600])); w.replyall(lambda: w.tok(100000))
        w.endall()
    for a in w.accounts(): w.show(a)
    w.q()


def config_start(w, r):
    """The same through starting."""
    for i in range(14):
        ast = cconf(w, r, r.random() < .85)
        w.start(ast, r, fail_ok=True)
        if w.alive and w.proc.poll() is None:
            w.q(); w.dump(); w.q(); w.info_cmd(); w.q()
            a = r.choice(w.accounts()); w.ask(a)
            if r.random() < .5: w.get(a, 500); w.endall()
            w.endall(); w.kill()
    w.start(cconf(w, r, False), r); w.q(); w.probe()


@directed("C18 C17")
def config_each(w):
    """Each way of being wrong, one at a time; and each option's effect."""
    import copy
    w.go(sx(w, "x"), event="V")
    base = lambda: conf(sx(w, "x"), sx(w, "y", 13, rbe=5, ral=50, rr=6), notify="N", err="R", event="V", tif="T", interval=7, rbe=8, ral=9, rr=10)
    def t(ast): w.reload(ast, w.rng); w.q()
    t(base()); w.dump(); w.q()
    for i in range(len(base())):
        a = base(); a.append(copy.deepcopy(a[i]))
        if a[i]["k"] != "a": t(a)
    for i in range(len(base()) - 2): a = base(); a.pop(i); t(a)
    for k in (0, 1):
        for i in range(len([n for n in base() if n["k"] == "a"][k]["f"])):
            a = base(); f = [n for n in a if n["k"] == "a"][k]["f"]; f.append(copy.deepcopy(f[i])); t(a)
            a = base(); f = [n for n in a if n["k"] == "a"][k]["f"]; f.pop(i); t(a)
    for o in ("auth_uri", "token_uri", "redirect_uri"):
        for u in BADURI + GOODURI:
            a = base(); f = [n for n in a if n["k"] == "a"][0]["f"]; f[:] = [n for n in f if n["o"] != o] + [S(o, u)]; t(a)
    for raw in RAW: t(base() + [X(raw)])
    for raw in RAWA: a = base(); [n for n in a if n["k"] == "a"][0]["f"].append(X(raw)); t(a)
    for x in (0, 13):
        for h in (None, "none"):
            for s in (None, "none"): t(conf(sx(w, "x", x), http=h, https=s))
    t(conf(acct(w, "x"), http="none")); t(conf(acct(w, "x"), https="none")); t([]); t([S("auth_notify_cmd", "x")])
    for f in (None, (("login_hint", "a"),), (("a", "b"), ("login_hint", "c"))):
        for h in (None, "me"): t(conf(sx(w, "x", fields=f, login_hint=h))); w.ask("x")
    for big in ("u64", "huge", "max"):
        for u in "smhd":
            for o in ("refresh_retry", "refresh_at_least", "refresh_before_expiry"): t(conf(sx(w, "x"), T(o, 1, u, big))); t(conf(sx(w, "x", extra=[T(o, 1, u, big)])))
    t(base()); w.probe()


@directed("C18 C04 C10 C12")
def config_strings(w):
    """Escapes and unusual characters in strings reach their destination unchanged."""
    for i in range(0, len(CHUNKS), 3):
        cs = [CHUNKS[(i + k) % len(CHUNKS)] for k in range(6)]
        x = sx(w, "x", fields=None, scopes=None, secret=None, cid="tmp")
        for n in x["f"]:
            if n["o"] == "client_id": n["v"] = cs[0]
        x["f"] += [dict(o="client_secret", k="s", v=cs[1]), L("scopes", cs[2], cs[3]), dict(o="auth_uri_fields", k="m", v=[[cs[4], cs[5]], [cs[0], []]])]
        ast = conf(x)
        for n, c in zip(("auth_notify_cmd", "error_notify_cmd", "token_event_cmd", "transient_error_if_cmd"), cs): ast.append(dict(o=n, k="s", v=c))
        if i == 0: w.start(ast, w.rng); w.q()
        else: w.ast = ast; w.reload(ast, w.rng); w.q()
        w.dump(); w.q(); w.ask("x"); w.endall()
        w.callback(w.nonce("x"), error="denied-%d" % i); w.q(); w.endall()
        w.get("x", 500); w.endall(); w.net(False); w.refresh("x"); w.q()
        for _ in range(6): w.fwd(40)
        w.endall(1); w.net(True); w.q(); w.endall()


@directed("C07 C10 C18")
def config_extremes(w):
    """Times too large to be represented: they never elapse (or, before expiry, have always elapsed)."""
    for big in ("max", "huge"):
        w.go(sx(w, "x"), sx(w, "y"), T("auth_notify_interval", 1, "s", big), notify="N", event="V")
        w.ask("x"); w.endall()
        for _ in range(4): w.ask("y"); w.endall(); w.revoke("y"); w.endall(); w.fwd(100)
        w.status(); w.q()
        w.reload(conf(sx(w, "x"), sx(w, "y"), notify="N", interval=5)); w.q(); w.endall(); w.fwd(5); w.endall()
        w.kill()
        w.go(sx(w, "x", extra=[T("refresh_retry", 1, "s", big)]), sx(w, "y"), rr=7)
        w.get("x", 1000); w.get("y", 1000); w.net(False); w.refresh("x"); w.refresh("y"); w.q(); w.fwd(1); w.fwd(6); w.fwd(40); w.fwd(1000); w.show("x"); w.q(); w.fwd(7); w.net(True); w.replyall()
        w.reload(conf(sx(w, "x"), sx(w, "y"), rr=7)); w.q(); w.fwd(7); w.replyall(); w.kill()
        w.go(sx(w, "x"), sx(w, "y", ral=50)); w.get("x", 1000); w.get("y", 1000)
        w.reload(conf(sx(w, "x", extra=[T("refresh_before_expiry", 1, "s", big)]), sx(w, "y", ral=50))); w.q()
        p = w.post(); w.fwd(5)
        if p: w.reply(p, w.tok(500)); w.q()
        p = w.post(); w.fwd(50)
        if p: w.reply(p, w.tok(500)); w.q()
        w.reload(conf(sx(w, "x", extra=[T("refresh_at_least", 1, "s", big)]), sx(w, "y", rbe=50))); w.q(); w.replyall(); w.fwd(409); w.fwd(1); w.fwd(40); w.replyall(); w.fwd(5400)
        w.replyall(); w.kill()


# ------------------------------------------------------------------------------------------------ accounts that come back
def _inflight(w, a, kind):
    """Something of a is in flight; -> its request (or command)."""
    if kind == "exchange": w.auth(a); return w.post("auth")
    w.get(a)
    if kind == "tif":
        for _ in range(6): w.refresh(a); w.q(); w.reply(w.post("refresh") or 0, NET("rst")); w.q()
        return None
    w.refresh(a); w.q()
    return w.post("refresh")


FILL = [lambda w, a: (w.show(a), w.q()), lambda w, a: (w.revoke(a), w.q()), lambda w, a: (w.refresh(a), w.q()), lambda w, a: (w.show(a), w.q())]


def readd(w, kind):
    """An account disappears and comes back while something from its earlier life is in flight.  Whatever it does then, that
    has no effect any more."""
    full = lambda: (sx(w, "a"), sx(w, "z"))
    w.go(*full(), **ALLCMD)
    for k in range(5):
        for how in range(2):
            for good in (True, False):
                p = _inflight(w, "z", kind)
                if how == 0: w.re(sx(w, "a"), **ALLCMD); w.q()
                else: w.re(sx(w, "a"), sx(w, "z", 3), **ALLCMD); w.q()
                w.re(*full(), **ALLCMD); w.q()
                for f in FILL[:k]: f(w, "z")
                if k == 4: w.restore(w.forge({"z": (w.newtok(), w.newtok("rt"), 3000)})); w.q()
                if p: w.reply(p, w.tok() if good else STATUS(400, "no"))
                w.q(); w.endall(0 if good else 1)
                w.show("z"); w.q(); w.probe(False)
                w.revoke("z"); w.q(); w.endall(); w.replyall()
    w.probe()


@directed("C01 C02 C11")
def readd_exchange(w): readd(w, "exchange")
@directed("C01 C02 C06")
def readd_refresh(w): readd(w, "refresh")
@directed("C01 C02 C09 C12")
def readd_tif(w): readd(w, "tif")


# ------------------------------------------------------------------------------------------------ authorisation URLs
NASTY = ["v", "", "a b", "a+b", "a&b=c", "%41", "#x", "\u00e9\u4e16", "/?;:@,$", "'\\\"<>", "x" * 3000]
def chunks(v): return [{"\\": "\\\\", '"': '\\"'}.get(c, c) for c in re.split(r'([\\"])', v) if c] or [""]


@directed("C04")
def auth_urls(w):
    """Settings of all kinds show up in the URL as they are."""
    fs = [[("k", v), ("l" + v[:20], "w"), ("k", v)] for v in NASTY]
    fs += [[(n, "x"), ("k", "1"), (n, "y")] for n in ("access_type", "client_id", "scope", "response_type", "redirect_uri", "prompt", "code_challenge_method")]
    fs += [[("b", "1"), ("a", "2"), ("b", "0"), ("A", "2"), ("a", "1")], [(f"k{i % 7}", f"v{i}") for i in range(40)]]
    accts = []
    for i, f in enumerate(fs):
        v = NASTY[i % len(NASTY)]
        accts.append(sx(w, f"u{i}", fields=[(chunks(a), chunks(b)) for a, b in f], cid="id" + v.replace("\\", "").replace('"', ""), scopes=((chunks("s" + v), "t", chunks("s" + v)) if i % 3 else ()), redirect=["http://localhost/r", "https://localhost/", "http://127.0.0.1"][i % 3],
                        auth_uri="http://prov.example/auth" + ["", "?q=1", "?state=1&client_id=zz", "/p%20q?x=%26"][i % 4], tok=f"/u{i}"))
    w.go(*accts, notify="N", err="R")
    for i in range(len(fs)): w.ask(f"u{i}", "refresh" if i % 2 else "show")
    w.endall()
    for i in range(len(fs)): w.callback(w.nonce(f"u{i}") or 0, code="c" + NASTY[i % len(NASTY)][:40]); w.q()
    w.replyall(); w.probe(False)



# ------------------------------------------------------------------------------------------------ dumps are sealed; the socket is touched
@directed("C28 C15")
def dumps_sealed(w):
    w.go(*_states4(w), **ALLCMD)
    for k in range(3): w.dump(); w.dump(); w.q()
    _prep7(w)
    for k in range(3): w.dump(); w.q()
    w.viacli = 1
    w.dump(); w.dump(); w.q()
    w.viacli = 0
    d = w.lastdump()
    w.kill(); w.go(*_states4(w), **ALLCMD)
    w.dump(); w.q(); w.restore(d); w.q()
    for k in range(3): w.dump(); w.q()
    w.shutdown(); w.go(*_states4(w), **ALLCMD)
    w.restore(d); w.q(); w.dump(); w.dump(); w.q(); w.probe()


H6 = 6 * 3600


@directed("C29", background=True)
def touch_socket_bg(w): touch_socket(w)


@directed("C29", background=False)
def touch_socket(w):
    w.go(sx(w, "x", rbe=10), **ALLCMD); w.get("x", 10 ** 6); w.endall()
    for d in (H6 - 1, 1, H6 - 1, 1, 3 * H6, 1, H6, 5, H6 - 5): w.fwd(d); w.endall(); w.replyall()
    for d in (100, H6, 5 * H6): w.suspend(d); w.q(); w.fwd(41); w.endall(); w.replyall()
    for i in range(3): w.fwd(H6); w.endall(); w.replyall()
    w.suspend(10); w.q(); w.fwd(H6 - 123); w.endall(); w.replyall(); w.fwd(H6)
    w.kill()
    w.go(sx(w, "x"), **ALLCMD)
    for d in (H6 - 1, 1, H6): w.fwd(d)
    w.probe()



@directed("C14 C03 C12")
def cb_both(w):
    """Callbacks with both an error and a code: the authorisation has failed."""
    w.go(sx(w, "x"), sx(w, "y", 13), **ALLCMD)
    for order in (None, [0, 2, 1], [1, 2, 0], [2, 1, 0]):
        for a in "xy":
            for e in ("access_denied", "", "e r&r=1"):
                w.ask(a); w.endall()
                w.callback(w.nonce(a), code="both-" + a, error=e, order=order); w.q(); w.endall(); w.status(); w.q()
                w.show(a, False); w.q(); w.revoke(a); w.q(); w.endall()
    w.auth("x"); w.callback(w.nonce("x"), code="again", error="late"); w.q(); w.replyall(); w.endall(); w.probe()
    w.ask("y"); w.callback(w.nonce("x"), code="c", error="stale"); w.q(); w.callback(w.nonce("y"), code="c", error="e", host="evil.example"); w.q(); w.probe()


@directed("C17 C18 C04")
def reload_listen(w):
    """Which servers listen is decided at the start; but configurations that differ in it are loaded all the same."""
    for start in (dict(), dict(http="none"), dict(https="none")):
        x, y = (sx(w, "x", 0 if start.get("http") is None else 13), sx(w, "y", 13 if start.get("https") is None else 0))
        w.go(x, y, **ALLCMD, **start)
        w.ask("x"); w.get("y", 500); w.endall()
        for kw in (dict(http="none"), dict(https="none"), dict(http="127.0.0.1:0"), dict(https="127.0.0.1:0", http="127.0.0.1:0"), {}, start):
            xv, yv = 0 if kw.get("http") is None else 13, 13 if kw.get("https") is None else 0
            if kw.get("http") == "none": yv = 13
            if kw.get("https") == "none": xv = 0
            w.re(sx(w, "x", xv, rr=7), sx(w, "y", yv), event="V2", notify="N", **kw); w.q(); w.endall()
            w.status(); w.q(); w.dump(); w.q(); w.ask("x"); w.ask("y"); w.endall(); w.info_cmd(); w.q()
            for a in "xy":
                n = w.nonce(a)
                if not n: continue
                tls = w.nredir[n].startswith("https")
                w.callback(n, code="lc", https=tls if (w.https_port if tls else w.http_port) else not tls); w.q(); w.replyall(); w.endall()
        w.probe(); w.kill()

FAMILIES2 = {"cli": cli_walk, "startup": start_walk, "hostile": hostile, "config": config_walk, "config_start": config_start}
