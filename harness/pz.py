"""Harness: runs the real server under the shim, plays every external party, records events."""
import base64, calendar, ctypes, email.utils, fcntl, hashlib, json, mmap, os, random, re, select, shutil, signal, socket, ssl, struct
import subprocess, sys, tempfile, termios, time
from urllib.parse import urlsplit, parse_qsl, urlencode, quote
import dumpfmt

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("PZ_BUILD", os.path.join(ROOT, "build"))
WALL0 = 1_900_000_000           # trace time 0 (seconds since the epoch)
BOOT0 = 1_000_000
MONO0 = 500_000
INF = 2_000_000_000
NS = 10 ** 9


# (a signal ignored by whoever started us would be ignored by the server, too)
for _s in (signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGHUP):
    if signal.getsignal(_s) == signal.SIG_IGN: signal.signal(_s, signal.SIG_DFL)


class HarnessError(Exception):
    """A failure of the machinery (exit 2), not of the code under test."""


def cap(t):
    return INF if t >= INF else (-INF if t <= -INF else int(t))


# ---------------------------------------------------------------- configuration ASTs
def S(o, *chunks): return {"o": o, "k": "s", "v": list(chunks)}
def T(o, n, u="s", big="no"): return {"o": o, "k": "t", "n": n, "u": u, "big": big}
def N(o): return {"o": o, "k": "n"}
def L(o, *items): return {"o": o, "k": "l", "v": [i if isinstance(i, list) else [i] for i in items]}
def M(o, *pairs): return {"o": o, "k": "m", "v": [[a if isinstance(a, list) else [a], b if isinstance(b, list) else [b]] for a, b in pairs]}
def A(name, *fields): return {"o": "account", "k": "a", "name": name if isinstance(name, list) else [name], "f": list(fields)}
def X(raw): return {"o": "?", "k": "x", "raw": raw}
BIGNUM = {"u64": "18446744073709551616", "huge": "1000000000000", "max": "18446744073709551615"}


def _lit(chunks): return '"' + "".join(chunks) + '"'


def render(ast, rnd=None):
    def ws():
        if rnd is None: return " "
        return rnd.choice([" ", "  ", "\n", "\t", " // c; \"x\n ", "\r\n", "", "", "//\n", "// account \"z\" {\n"])

    def val(n):
        if n["k"] == "s": return [_lit(n["v"])]
        if n["k"] == "t": return [(BIGNUM[n["big"]] if n["big"] != "no" else str(n["n"])) + n["u"]]
        if n["k"] == "n": return ["none"]
        if n["k"] == "l":
            o = ["["]
            for i, x in enumerate(n["v"]): o += ([","] if i else []) + [_lit(x)]
            return o + ["]"]
        if n["k"] == "m":
            o = ["{"]
            for i, (a, b) in enumerate(n["v"]): o += ([","] if i else []) + [_lit(a), ":", _lit(b)]
            return o + ["}"]
        raise HarnessError(n)

    def one(n):
        if n["k"] == "x": return [n["raw"]]
        if n["k"] == "a":
            o = ["account", _lit(n["name"]), "{"]
            for f in n["f"]: o += one(f)
            return o + ["}"]
        return [n["o"], "="] + val(n) + [";"]
    toks = []
    for n in ast: toks += one(n)
    raw = {n["raw"] for n in ast if n["k"] == "x"} | {f["raw"] for n in ast if n["k"] == "a" for f in n["f"] if f["k"] == "x"}
    out = ws()
    for t in toks: out += " " + t + " " if t in raw else t + ws()
    return out


def _strs(ast):
    for n in ast:
        if n["k"] == "s": yield unesc(n["v"])
        elif n["k"] == "a": yield from _strs(n["f"])


def unesc(chunks): return "".join(c[1] if len(c) == 2 and c[0] == "\\" else c for c in chunks)


def uri_info(s):
    """How the url crate sees a (curated) URI string."""
    r = {"ok": False, "ishttp": s.startswith("http"), "ishttps": s.startswith("https"), "lhttps": s.lower().startswith("https"), "scheme": "", "host": "",
         "pre": "", "pre0": "", "post": "", "base": "", "full": "", "dns": False, "q": []}
    m = re.match(r"^([A-Za-z][A-Za-z0-9+.-]*)://([^/?#\s]+)(/[^?#]*)?(\?[^#]*)?$", s)
    if not m: return r
    scheme = m.group(1).lower()
    hp = m.group(2)
    host, _, port = hp.partition(":")
    if port and not (port.isdigit() and int(port) < 65536): return r
    if " " in hp or not host: return r
    host = host.lower()
    r["scheme"], r["host"] = scheme, host
    r["ok"] = scheme in ("http", "https")
    path = m.group(3) or "/"
    q = m.group(4) or ""
    dflt = {"http": "80", "https": "443"}.get(scheme)
    r["base"] = f"{scheme}://{host}{':' + port if port and port != dflt else ''}{path}"
    r["q"] = [[k, v] for k, v in parse_qsl(q[1:], keep_blank_values=True)]
    r["pre"], r["pre0"], r["post"] = f"{scheme}://{host}:", f"{scheme}://{host}", path + q
    r["full"] = r["base"] + q
    r["dns"] = host.endswith(".invalid")
    return r


def listen_info(s):
    """Which addresses (lh) and port (lp, 0: any) a string to listen on stands for."""
    m = re.match(r"^(\[[0-9a-f:.]+\]|[^:\[\]]+):(\d{1,5})$", s)
    if not m: return {"lh": [], "lp": -1}
    h = m[1].strip("[]")
    return {"lh": {"localhost": ["127.0.0.1", "::1"]}.get(h, [h]), "lp": int(m[2])}


# ---------------------------------------------------------------- the control page
ODD = ["@:", "@:a:b", ":@", "access_token:@", "pending:@", " @ ", "@ \"q\"", "\\@\\n", "%41@+&=?#;,", "\u00fcn\u00ef@\u20ac\U0001f600", "@\n", "@\tx", "'$HOME`x`'@", "{@}", "@" * 40]


class Ctl:
    OFF = dict(ready=0, mono=8, boot=16, real=24, tick=32, epoch=40, activity=48, spawns=56, nslots=64, refuse=72, refused=80, gate_mode=88,
               loglen=96, inrecv=104, dnsfails=112, spawnfails=120, connects=128, touches=136, dpid=144, accfail=152)
    SIZE = 4096 + 512 * 64 + 65536

    def __init__(self, path):
        self.path = path
        with open(path, "wb") as f: f.write(b"\0" * self.SIZE)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), self.SIZE)
        self.v = memoryview(self.m).cast("Q")

    def get(self, n): return self.v[self.OFF[n] // 8]
    def set(self, n, x): self.v[self.OFF[n] // 8] = x

    def slots(self):
        for i in range(self.get("nslots")):
            o = 512 + i * 8
            st = self.v[o]
            if st: yield i, st, self.v[o + 1], self.v[o + 2], self.v[o + 3]

    def open_gate(self, i):
        o = 512 + i * 8
        self.v[o + 3] = self.v[o + 2]

    def log(self):
        n = min(self.get("loglen"), 65536)
        return bytes(self.m[4096 + 512 * 64:4096 + 512 * 64 + n]).decode(errors="replace")

    def close(self):
        self.v.release(); self.m.close(); self.f.close()


class Daemon:
    """A server that puts itself in the background: like Popen, but for the process in the background once there is one.  (This process
    has to be its reaper.)"""
    def __init__(self, p, ctl): self.p, self.ctl, self.pid, self.returncode = p, ctl, 0, None

    def poll(self):
        if self.returncode is not None: return self.returncode
        if not self.pid:
            rc = self.p.poll()
            if rc is None: return None
            self.pid = self.ctl.get("dpid")
            if not self.pid:
                self.returncode = rc
                return rc
        try: p, st = os.waitpid(self.pid, os.WNOHANG)
        except ChildProcessError: p, st = self.pid, 0
        if p: self.returncode = os.waitstatus_to_exitcode(st)
        return self.returncode

    def send_signal(self, sig):
        self.poll()
        if self.returncode is None: os.kill(self.pid or self.p.pid, sig)

    def kill(self): self.send_signal(signal.SIGKILL)

    def wait(self, timeout=20):
        t0 = time.time()
        while self.poll() is None:
            if time.time() - t0 > timeout: raise HarnessError("the server does not end")
            time.sleep(0.0005)
        return self.returncode


def subreaper(on): ctypes.CDLL(None).prctl(36, 1 if on else 0, 0, 0, 0)


# ---------------------------------------------------------------- the world
class World:
    def __init__(self, ast, *, shell=True, seed=0, gates=False, extra_env=None, background=False):
        self.background = background       # servers put themselves in the background
        self.rnd = random.Random(seed)
        self.dir = tempfile.mkdtemp(prefix="pzv-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        self.ev = []                       # the trace
        self.t = 0                         # trace time
        self.skew = 0
        self.netup = True
        self.proc = None
        self.alive = False
        self.died = None
        self.shell = shell
        self.gates = gates
        self.extra_env = extra_env or {}
        self.nonces = {}                   # state string -> index
        self.chals = {}                    # challenge -> index
        self.nstates = {}                  # index -> state string
        self.nredir = {}                   # index -> redirect URI
        self.nacct = {}                    # index -> account
        self.posts = {}                    # pid -> dict(sock, buf, kind, ...)
        self.cmds = {}
        self.ctls = {}
        self.https = {}
        self.nid = 0
        self.npost = 0
        self.ncmd = 0
        self.hellos = 0
        self.tokn = 0
        self.marks = []                    # reason markers
        self.secrets = set()
        self.sockps = set()
        self.names = set()          # all account names ever configured
        self.uris = {x: dict(uri_info(x), **listen_info(x)) for x in ("http://localhost/", "127.0.0.1:0")}
        self.keys = set()                  # public keys of earlier servers
        self.gen = 0
        self.quiesced = False
        self.poll = select.poll()
        self.fdmap = {}
        self.pend_new = {}
        self.refused_seen = 0
        self.dns_seen = 0
        self.spawnfail_seen = 0
        self.dumps = {}
        self.ndump = 0
        self.dnonces = {}
        self.problems = []                 # observations that have no event of their own
        self.steps = 0
        self.tok_sock = socket.socket()
        self.tok_sock.bind(("127.0.0.1", 0)); self.tok_sock.listen(128); self.tok_sock.setblocking(False)
        self.tok_port = self.tok_sock.getsockname()[1]
        self._reg(self.tok_sock, self._tok_accept)
        self.sh_path = os.path.join(self.dir, "sh.sock")
        self.sh_sock = socket.socket(socket.AF_UNIX)
        self.sh_sock.bind(self.sh_path); self.sh_sock.listen(128); self.sh_sock.setblocking(False)
        self._reg(self.sh_sock, self._sh_accept)
        self.log_path = os.path.join(self.dir, "log")
        self.log_sock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        self.log_sock.bind(self.log_path); self.log_sock.setblocking(False)
        self._reg(self.log_sock, self._syslog)
        self.syslog = []
        self.conf_path = self.conf_shown = os.path.join(self.dir, "c.conf")
        self.conf_args, self.conf_env = ["-c", self.conf_path], {}
        self.rt = os.path.join(self.dir, "rt")
        self.tmp = os.path.join(self.dir, "tmp")
        self.cwd = os.path.join(self.dir, "cwd")
        for x in (self.rt, self.tmp, self.cwd): os.mkdir(x, 0o700)
        self.rtmode = "xdg"
        self.verb = "-v"
        self.sockp = os.path.join(self.rt, "pizauth", "pizauth.sock")
        if ast is not None:
            self.start(ast)

    # ---- helpers
    def tok_uri(self, path="/t"): return f"http://127.0.0.1:{self.tok_port}{path}"

    def _reg(self, s, cb):
        self.fdmap[s.fileno()] = (s, cb)
        self.poll.register(s.fileno(), select.POLLIN | select.POLLHUP | select.POLLERR)

    def _unreg(self, s):
        fd = s.fileno()
        if fd in self.fdmap and self.fdmap[fd][0] is s:
            del self.fdmap[fd]
            self.poll.unregister(fd)

    def log(self, e, **kw):
        d = {"e": e}
        self.quiesced = e == "Quiet"
        d.update(kw)
        self.ev.append(d)
        return d

    def _ast_out(self, ast):
        self.names |= {unesc(x["name"]) for x in ast if isinstance(x, dict) and x.get("o") == "account"}
        for s in _strs(ast):
            if "://" in s or s not in self.uris: self.uris[s] = dict(uri_info(s), **listen_info(s))
        return ast

    def _syslog(self, s):
        while True:
            try: self.syslog.append(s.recv(65536))
            except OSError: return

    # ---- process control
    def _env(self, server=False):
        env = {"PATH": os.environ["PATH"], "HOME": self.dir, "TZ": "UTC", "RUST_BACKTRACE": "0", "TMPDIR": self.tmp}
        env.update(self.conf_env)
        if self.rtmode == "xdg": env["XDG_RUNTIME_DIR"] = self.rt
        return env

    def conf_via(self, how):
        """Where servers and commands find the configuration from now on."""
        p = os.path.join(self.dir, "c.conf")
        self.conf_args, self.conf_env = [], {}
        if how == "abs": self.conf_args = ["-c", p]
        elif how == "rel": self.conf_args = ["-c", "../c.conf"]
        else:
            for d, v in ((".config", None), ("xc", "XDG_CONFIG_HOME")):
                if how == v or not v and how == "HOME":
                    os.makedirs(os.path.join(self.dir, d), exist_ok=True)
                    p = os.path.join(self.dir, d, "pizauth.conf")
                    if v: self.conf_env = {v: os.path.join(self.dir, d)}
        self.conf_path, self.conf_shown = p, "../c.conf" if how == "rel" else p

    def _modes(self):
        """Permissions and owners of the runtime directory and of its parent."""
        pz = os.path.dirname(self.sockp)
        return [[st.st_mode & 0o7777, st.st_uid == os.getuid()] for st in (os.stat(os.path.dirname(pz)), os.stat(pz))]

    def start(self, ast, rnd=None, text=None, fail_ok=False, kill_after=None, umask=None, listen_bad=False):
        """Start a server; logs Start.  fail_ok: it may also refuse to start (logs StartFail); ast=None: text is not a configuration.
        kill_after: kill it after so many (real) seconds, wherever it is (logs StartKill)."""
        if text is None: text = render(ast, rnd)
        with open(self.conf_path, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode())
        self.gen += 1
        self.sockps.add(self.sockp)
        self.ctl = Ctl(os.path.join(self.dir, f"ctl{self.gen}"))
        c = self.ctl
        c.set("refuse", 0 if self.netup else self.tok_port)
        c.set("mono", (MONO0 + self.t - self.skew) * NS)
        c.set("boot", (BOOT0 + self.t) * NS)
        c.set("real", (WALL0 + self.t) * NS)
        self.refused_seen = self.dns_seen = self.spawnfail_seen = self.touch_seen = 0
        self.hellos = 0
        env = self._env()
        env.update({"LD_PRELOAD": os.path.join(BUILD, "vshim.so"), "VSHIM_CTL": c.path, "PZ_GEN": str(self.gen), "FAKESH_SOCK": self.sh_path,
                    "SHELL": os.path.join(BUILD, "fakesh") if self.shell else os.path.join(self.dir, "nonexistent")})
        env.update(self.extra_env)
        self.errf = open(os.path.join(self.dir, "stderr"), "ab")
        self._err_sz = os.path.getsize(os.path.join(self.dir, "stderr"))
        size0 = self._err_sz
        if self.background:
            env["VSHIM_SYSLOG"] = self.log_path
            subreaper(True)
        self.pump(); nlog = self._nlog = len(self.syslog)
        self._log_sz = size0
        self.proc = subprocess.Popen([os.path.join(BUILD, "pizauth"), "server", *([] if self.background else ["-d"]), self.verb, *self.conf_args], env=env, cwd=self.cwd,
                                     stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf, umask=-1 if umask is None else umask)
        if self.background: self.proc = Daemon(self.proc, c)
        t0 = time.time()
        if kill_after is not None:
            time.sleep(kill_after)
            self.proc.kill(); self.proc.wait()
            self.log("StartKill")
            return
        while True:
            if self.proc.poll() is not None:
                if not fail_ok: raise HarnessError("server did not start: " + self.stderr())
                self.pump()
                said = os.path.getsize(os.path.join(self.dir, "stderr")) > size0 or len(self.syslog) > nlog
                panic = b"panicked at" in self._err_tail()
                self.log("StartFail", ok=ast is not None and not listen_bad, ast=self._ast_out(ast) if ast is not None else [], code=self.proc.returncode, said=said, panic=panic)
                self.errf.truncate(size0)     # (quotes the file, including its secrets: files() is about running servers)
                return
            if c.get("ready") and os.path.exists(self.sockp):
                s = socket.socket(socket.AF_UNIX)
                try:
                    s.connect(self.sockp); break
                except OSError: pass
            if time.time() - t0 > 20: raise HarnessError("server start timeout: " + self.stderr())
            time.sleep(0.002)
        s.sendall(b"info:"); s.shutdown(socket.SHUT_WR)
        s.settimeout(20)
        b = b""
        while True:
            x = s.recv(65536)
            if not x: break
            b += x
        info = json.loads(b)
        self.info = info
        self.http_port = int(info["http_port"]) if info["http_port"] != "none" else 0
        self.https_port = int(info["https_port"]) if info["https_port"] != "none" else 0
        self.key = info.get("https_pub_key")
        self._cert_seen = False
        lst = self._listening()
        for n, p in (("http", self.http_port), ("https", self.https_port)):
            lh = next((listen_info(unesc(o["v"]))["lh"] for o in ast or [] if o.get("o") == n + "_listen" and o["k"] == "s"), ["127.0.0.1"])
            h = [x["h"] for x in lst["lst"] if x["p"] == p and ":" not in x["h"]]
            h = ([x for x in h if x in lh] + h + ["127.0.0.1"])[0]
            setattr(self, n + "_addr", "127.0.0.1" if h == "0.0.0.0" else h)
        self.alive = True
        if ast is None:
            self.log("Died", msg="a file which is not a configuration was accepted")
            raise ServerDied("bad configuration accepted")
        self.log("Start", ast=self._ast_out(ast), hp=self.http_port, sp=self.https_port, sh=self.shell, dirs=self._modes(), key=self.key is not None, **lst)
        self.ast = ast
        if self.gates:
            self._quiesce()
            c.set("gate_mode", 1)

    def _listening(self):
        """What the server listens on."""
        pid = self.ctl.get("dpid") if self.background else self.proc.pid
        ino = set()
        for f in os.listdir(f"/proc/{pid}/fd"):
            try: m = re.match(r"socket:\[(\d+)\]", os.readlink(f"/proc/{pid}/fd/{f}"))
            except OSError: continue
            if m: ino.add(m[1])
        lst, seen = [], set()
        for n in ("tcp", "tcp6") * 3:           # (the kernel's lists may miss or repeat entries while other sockets come and go)
            try: ls = open(f"/proc/{pid}/net/{n}").read().splitlines()[1:]
            except OSError: continue
            for l in ls:
                x = l.split()
                if x[3] != "0A" or x[9] not in ino or x[9] in seen: continue
                seen.add(x[9])
                a, p = x[1].split(":")
                b = bytes.fromhex(a)
                b = b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4))
                lst.append({"h": socket.inet_ntop(socket.AF_INET if len(b) == 4 else socket.AF_INET6, b), "p": int(p, 16)})
        un = []
        for l in open(f"/proc/{pid}/net/unix").read().splitlines()[1:]:
            x = l.split()
            if x[6] in ino and int(x[3], 16) & 0x10000: un.append(x[7] if len(x) > 7 else "")
        return {"lst": lst, "un": un == [self.sockp]}

    def listening(self):
        if self.alive: self.log("Listen", **self._listening())

    def _cert(self, der):
        if self._cert_seen: return
        self._cert_seen = True
        try: key = bytes.fromhex((self.key or "").replace(":", ""))
        except ValueError: key = b""
        self.log("Cert", key=key != b"" and key == pubkey(der), fresh=key not in self.keys, local=b"localhost" in der)
        self.keys.add(key)

    def stderr(self):
        try: return open(os.path.join(self.dir, "stderr"), errors="replace").read()[-3000:]
        except OSError: return ""

    def _reap(self):
        self.alive = False
        for d in list(self.posts.values()): self._close_post(d)
        self.posts.clear()
        for d in list(self.cmds.values()):
            self._unreg(d["s"]); d["s"].close()
        self.cmds.clear()
        for d in list(self.ctls.values()) + list(self.https.values()):
            self._unreg(d["s"]); d["s"].close()
        self.ctls.clear(); self.https.clear()
        for s in list(self.pend_new.values()):
            self._unreg(s["s"]); s["s"].close()
        self.pend_new.clear()
        # drain accept queues
        for ls in (self.tok_sock, self.sh_sock):
            while True:
                try: x, _ = ls.accept(); x.close()
                except OSError: break

    def kill(self, sig=signal.SIGKILL):
        """Kill the server; logs Stop."""
        self.log("Stop")
        self.proc.send_signal(sig)
        self.proc.wait(timeout=20)
        time.sleep(0.002)
        self._reap()

    def close(self):
        try:
            if self.proc and self.proc.poll() is None:
                self.proc.kill()
            if self.proc: self.proc.wait()
            self._reap()
            self.log_sock.close()
            if self.background: subreaper(False)
            self.tok_sock.close(); self.sh_sock.close()
            self.errf.close()
            self.ctl.close()
        except Exception: pass
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- pump
    def pump(self, timeout=0):
        n = 0
        while True:
            evs = self.poll.poll(timeout)
            timeout = 0
            if not evs: break
            for fd, _ in evs:
                x = self.fdmap.get(fd)
                if x:
                    n += 1
                    x[1](x[0])
        return n

    def _check_alive(self):
        if self.alive and self.proc.poll() is not None:
            self.alive = False
            self.died = f"server exited with {self.proc.returncode}: {self.stderr()[-800:]}"
            self.pump()
            self.log("Died", msg=self.died[:400])
            raise ServerDied(self.died)
        if self.alive and b"panicked at" in self._err_tail():
            self.died = "server thread panicked: " + self.stderr()[-800:]
            self.log("Died", msg=self.died[:400])
            raise ServerDied(self.died)

    def _err_tail(self):
        try:
            sz = os.path.getsize(os.path.join(self.dir, "stderr"))
            last = getattr(self, "_err_sz", 0)
            if sz == last: return b""
            with open(os.path.join(self.dir, "stderr"), "rb") as f:
                f.seek(max(0, last - 32)); b = f.read()
            self._err_sz = sz
            return b
        except OSError: return b""

    def _log_errors(self):
        """Log what the server has written to its log about failures."""
        if self.background:
            new, self._nlog = self.syslog[self._nlog:], len(self.syslog)
            es = [e.decode(errors="replace") for e in new if int((re.match(rb"<(\d+)>", e) or [0, 7])[1]) % 8 <= 3]
        else:
            f = os.path.join(self.dir, "stderr")
            sz = os.path.getsize(f)
            if sz <= self._log_sz: return 0
            with open(f, "rb") as h: h.seek(self._log_sz); b = h.read()
            self._log_sz += len(b)
            es = re.split(r"(?m)^(?=(?:ERROR|WARN|INFO|DEBUG|TRACE) )", b.decode(errors="replace"))
            es = [e for e in es if e.startswith("ERROR ")]
        n = 0
        for e in es:
            who = [a for a in self.names if f"Authentication for {a} failed" in e]
            if who:
                n += 1
                self.log("Logged", **{"as": who, "marks": self._marked(e), "leak": any(x in e for x in self.secrets if len(x) > 5)})
        return n

    def _quiesce(self, limit=20.0):
        c = self.ctl
        t0 = time.time()
        while True:
            a0 = c.get("activity")
            e = c.get("epoch") + 1
            c.set("epoch", e)
            while True:
                if self.pump(): a0 = -1
                if c.get("activity") != a0: break
                if all(st != 1 and ie >= e for _, st, ie, _, _ in c.slots()): break
                if time.time() - t0 > limit: raise HarnessError("no quiescence: %s" % [x for x in c.slots()])
                if self.proc.poll() is not None: self._check_alive()
                time.sleep(0.0002)
            if c.get("activity") == a0 and all(st != 1 and ie >= e for _, st, ie, _, _ in c.slots()) and not self.pump():
                return
            if time.time() - t0 > limit: raise HarnessError("no quiescence (busy)")
            self._check_alive()

    def settle(self):
        """Run until nothing in the server can move (threads at gates excepted) and everything it did has been observed."""
        self.steps += 1
        t0 = time.time()
        stable = 0
        while True:
            self._check_alive()
            self._quiesce()
            ok = self.ctl.get("spawns") == self.hellos and not self.pend_new and not self.pump()
            for n, key, kind in (("refused", "refused_seen", "Refused"), ("dnsfails", "dns_seen", "DnsFail")):
                k = self.ctl.get(n)
                while getattr(self, key) < k:
                    setattr(self, key, getattr(self, key) + 1)
                    self.log("ConnFail")
                    ok = False
            if self._log_errors(): ok = False
            k = self.ctl.get("touches")
            while self.touch_seen < k: self.touch_seen += 1; self.log("Touch")
            if ok:
                stable += 1
                if stable >= 2:
                    # A complete response counts even if the connection is (needlessly) kept open.
                    fin = [i for i, d in self.https.items() if b"\r\n\r\n" in d["buf"]]
                    if not fin: break
                    for i in fin: self._http_fin(i)
                    stable = 0
            else:
                stable = 0
                if self.pump(1) == 0 and time.time() - t0 > 20: raise HarnessError("settle timeout")
        self._check_alive()

    def gated(self):
        return [i for i, st, _, seq, op in self.ctl.slots() if st == 3 and op < seq]

    def release(self, i=None):
        g = self.gated()
        if not g: return False
        self.ctl.open_gate(i if i in g else self.rnd.choice(g))
        return True

    def ungate(self):
        """Let everything run freely."""
        self.ctl.set("gate_mode", 0)

    def regate(self):
        self.ctl.set("gate_mode", 1)

    def quiet(self):
        self.settle()
        if self.gates:
            n = 0
            while self.gated():
                self.release(); self.settle()
                n += 1
                if n > 3000: raise HarnessError("gates never drain")
        self.log("Quiet")

    # ---- URL handling
    def _url(self, u):
        """Abstract an authorisation URL; assigns nonce and challenge indices."""
        sp = urlsplit(u)
        base = f"{sp.scheme}://{sp.netloc}{sp.path}"
        ps = parse_qsl(sp.query, keep_blank_values=True)
        # auth_uri's own parameters, which may include a "state", come first
        skip = max([len(x["q"]) for x in self.uris.values() if x["q"] and x["base"] == base and [list(y) for y in ps[:len(x["q"])]] == x["q"]], default=0)
        own = [v for k, v in ps[skip:] if k == "state"]
        st = own[0] if own else ""
        ch = ""
        for i, (k, v) in enumerate(ps):
            if k == "code_challenge": ch = v; break
        if st not in self.nonces:
            self.nonces[st] = len(self.nonces) + 1
            self.nstates[self.nonces[st]] = st
        if ch not in self.chals: self.chals[ch] = len(self.chals) + 1
        for k, v in ps:
            if k == "redirect_uri": self.nredir[self.nonces[st]] = v; break
        out, s1, c1 = [], False, False
        for k, v in ps:
            if k == "state" and v == st and not s1: out.append([k, "$S"]); s1 = True
            elif k == "code_challenge" and v == ch and not c1: out.append([k, "$C"]); c1 = True
            else: out.append([k, v])
        # lengths: 8 random bytes and a SHA-256, URL-safe base64 without padding
        wf = bool(re.fullmatch(r"[A-Za-z0-9_-]{11,}", st)) and bool(re.fullmatch(r"[A-Za-z0-9_-]{43}", ch))
        return {"n": self.nonces[st], "c": self.chals[ch], "b": base, "p": out, "wf": wf}

    # ---- control socket
    def send_raw(self, data, info, half_close=True, rid=None):
        self.nid += 1
        i = self.nid
        self.log("Call", id=i, **info)
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.sockp)
        try:
            s.sendall(data)
            if half_close: s.shutdown(socket.SHUT_WR)
        except OSError: pass
        s.setblocking(False)
        self.ctls[i] = {"s": s, "buf": b"", "c": info["c"], "id": i, "info": info}
        self._reg(s, lambda s, i=i: self._ctl_in(i))
        return i

    def _ctl_in(self, i):
        d = self.ctls[i]
        try:
            b = d["s"].recv(1 << 20)
        except BlockingIOError: return
        except OSError: b = b""
        if b:
            d["buf"] += b
            return
        self._unreg(d["s"]); d["s"].close()
        del self.ctls[i]
        self.last = self.parse_ret(d)
        if self.last["k"] == "pend": self.nacct.setdefault(self.last["n"], d["info"].get("a"))
        d["info"]["_done"] = True
        self.log("Ret", id=i, r=self.last)

    def parse_ret(self, d):
        raw, c = d["buf"], d["c"]
        d["raw"] = raw
        self.last_raw = raw
        if c == "dump":
            try:
                ver, acc = dumpfmt.decode(raw)
            except Exception as e:
                return {"k": "bad", "m": f"undecodable dump: {e}"[:100]}
            self.ndump += 1
            self.dumps[self.ndump] = raw
            self.last_dump = self.ndump
            n = self.dnonces.setdefault(raw[:12], len(self.dnonces) + 1)
            return {"k": "dump", "ver": ver, "acc": self.dump_abs(acc), "d": self.ndump, "nn": n, "plain": any(x.encode() in raw for x in self.secrets if len(x) > 5)}
        s = raw.decode(errors="replace")
        k, colon, rest = s.partition(":")
        if c == "info":
            try: return {"k": "info", "hp": json.loads(s)["http_port"], "sp": json.loads(s)["https_port"], "key": json.loads(s).get("https_pub_key") == self.key}
            except Exception: return {"k": "bad", "m": s[:100]}
        if not colon: return {"k": "none"} if not s else {"k": "bad", "m": s[:100]}
        if k == "access_token": return {"k": "tok", "t": rest}
        if k == "pending": return {"k": "pend0"} if not rest else dict(k="pend", **self._url(rest))
        if k == "scheduled": return {"k": "sched"} if not rest else {"k": "bad", "m": s[:100]}
        if k == "error":
            m = "noacct" if "No account" in rest else "expired" if "expired" in rest else "other"
            return {"k": "err", "m": m} if rest.strip() else {"k": "bad", "m": s[:100]}
        if k == "ok" and c == "status":
            return {"k": "status", "l": self._status_lines(rest)}
        if k == "ok" and not rest: return {"k": "ok"}
        return {"k": "bad", "m": s[:100]}

    def _st_time(self, s):
        s = s.strip()
        if s.startswith("<"): return INF
        try:
            tt = email.utils.parsedate_tz(s)
            return cap(int(email.utils.mktime_tz(tt)) - WALL0)
        except Exception: return -999999

    def _status_lines(self, s):
        """Lines of a status reply: names are those of known accounts (which may contain anything) or else anything up to ': '."""
        out, known = [], sorted(self.names, key=len, reverse=True)
        while True:
            n = next((x for x in known if s.startswith(x + ": ")), None)
            if n is None: n = s.split("\n")[0].partition(": ")[0]
            rest = s[len(n) + 2:] if s.startswith(n + ": ") else ""
            st, nl, s = rest.partition("\n")
            out.append(self._status_line(n, st))
            if not nl: return out

    def _status_line(self, name, st):
        m = re.search(r"\(obtained (.*); expires (.*)\)", st)
        if m and st.startswith("Active"): return {"a": name, "k": "act", "o": self._st_time(m.group(1)), "x": self._st_time(m.group(2))}
        if "pending" in st:
            m = re.search(r"\(last notification (.*)\)", st)
            return {"a": name, "k": "pend", "t": self._st_time(m.group(1)) if m else -1}
        if "expired" in st:
            m = re.search(r"\(last refresh attempt (.*)\)", st)
            return {"a": name, "k": "exp", "t": self._st_time(m.group(1)) if m else -1}
        if st.startswith("No access token"): return {"a": name, "k": "empty"}
        return {"a": name, "k": "bad", "m": st[:80]}

    def dump_abs(self, acc):
        out = []
        for name in sorted(acc):
            c, ts = acc[name]
            sec = {"auth_uri": c["auth_uri"], "fields": [list(x) for x in c["auth_uri_fields"]], "client_id": c["client_id"],
                   "secret": [] if c["client_secret"] is None else [c["client_secret"]], "redirect": c["redirect_uri"], "scopes": c["scopes"], "token_uri": c["token_uri"]}
            if ts is None: t = {"k": "empty"}
            else:
                t = {"k": "act", "tok": ts["tok"], "rtok": [] if ts["rtok"] is None else [ts["rtok"]], "obt": cap(ts["obt"][0] - WALL0), "exp": cap(ts["exp"][0] - WALL0)}
            out.append({"a": name, "sec": sec, "ts": t})
        return out

    def show(self, a, url=True): return self.send_raw(f"showtoken:{'withurl' if url else 'withouturl'} {a}".encode(), {"c": "show", "a": a, "u": url})
    def refresh(self, a, url=True): return self.send_raw(f"refresh:{'withurl' if url else 'withouturl'} {a}".encode(), {"c": "refresh", "a": a, "u": url})
    def revoke(self, a): return self.send_raw(f"revoke:{a}".encode(), {"c": "revoke", "a": a})
    def status(self): return self.send_raw(b"status:", {"c": "status"})
    def dump(self): return self.send_raw(b"dump:", {"c": "dump"})
    def info_cmd(self): return self.send_raw(b"info:", {"c": "info"})
    def bad(self, data): return self.send_raw(data, {"c": "bad"})

    def reload(self, ast, rnd=None, text=None, missing=False):
        """ast=None with text: a file which the grammar rejects; missing: no file."""
        if any(d["c"] == "reload" for d in self.ctls.values()): self.quiet()
        if missing:
            try: os.unlink(self.conf_path)
            except OSError: pass
            return self.send_raw(b"reload:", {"c": "reload", "ok": False, "ast": []})
        if text is None: text = render(ast, rnd)
        with open(self.conf_path, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode())
        if ast is None: return self.send_raw(b"reload:", {"c": "reload", "ok": False, "ast": []})
        return self.send_raw(b"reload:", {"c": "reload", "ok": True, "ast": self._ast_out(ast)})

    def restore(self, data, usable=None):
        """data: dump bytes.  The specification is given the decoded content, or usable=False."""
        if usable is None:
            try:
                ver, acc = dumpfmt.decode(data)
                usable = ver == 1
            except Exception:
                usable = False
        if usable: ver, acc = dumpfmt.decode(data)
        return self.send_raw(b"restore:" + data, {"c": "restore", "ok": usable, "acc": self.dump_abs(acc) if usable else []})

    # ---- the command line
    def second(self, extra=(), busy=False, alias=None, detach=False):
        """Try to start another server in the same runtime directory.  busy: while the running one does not get round to anything.
        alias: another name for the directory which holds the runtime directory."""
        if busy: self.proc.send_signal(signal.SIGSTOP)
        env = self._env()
        if detach: subreaper(True)
        if alias is not None:
            v = "XDG_RUNTIME_DIR" if "XDG_RUNTIME_DIR" in env else "TMPDIR"
            d = env[v]
            if alias == "link":
                env[v] = os.path.join(self.tmp, "alias-" + v)
                os.makedirs(os.path.dirname(env[v]), exist_ok=True)
                if not os.path.islink(env[v]): os.symlink(d, env[v])
            else: env[v] = alias.replace("@", d).replace("%", os.path.basename(d))
        p = subprocess.Popen([os.path.join(BUILD, "pizauth"), "server", *([] if detach else ["-d"]), *self.conf_args, *extra], env=env, cwd=self.cwd, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try: out, err = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:      # (it has become a server)
            p.kill(); out, err = p.communicate()
        if p.returncode == 0:                  # (... in the background, as a child of this process)
            for q in open(f"/proc/{os.getpid()}/task/{os.getpid()}/children").read().split():
                if int(q) != self.proc.pid and os.readlink(f"/proc/{q}/exe").startswith(os.path.join(BUILD, "pizauth")): os.kill(int(q), signal.SIGKILL); os.waitpid(int(q), 0)
        if busy: self.proc.send_signal(signal.SIGCONT)
        if alias == "link": os.unlink(env[v])
        self.log("Second", code=p.returncode, out=bool(out), err=bool(err.strip()), sock=os.path.exists(self.sockp), dirs=self._modes())

    def usage(self, *args, data=b""):
        """A command that is not as it should be."""
        p = subprocess.Popen([os.path.join(BUILD, "pizauth"), *args], env=self._env(), cwd=self.cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try: out, err = p.communicate(data, timeout=10)
        except subprocess.TimeoutExpired:            # (a server?)
            p.kill(); out, err = p.communicate()
        self.log("Usage", args=" ".join(args).replace(self.conf_path, "CONF"), code=p.returncode, out=bool(out), err=bool(err.strip()))

    def cli(self, c, a=None, url=True, data=b"", stdout=None, usable=None, opts=(), frozen=False):
        """Run a pizauth command to its end.  frozen: the server is stopped, and killed while the command waits for it."""
        cmd = [os.path.join(BUILD, "pizauth"), c, *opts]
        info = {"c": c}
        if c in ("show", "refresh"):
            info.update(a=a, u=url)
            if not url: cmd.append("-u")
        if c == "revoke": info.update(a=a)
        if a is not None: cmd.append(a)
        if c == "info": cmd += self.conf_args
        if c == "reload": info.update(self._reload_info)
        if c == "restore":
            if usable is None:
                try: ver, acc = dumpfmt.decode(data); usable = ver == 1
                except Exception: usable = False
            info.update(ok=usable, acc=self.dump_abs(dumpfmt.decode(data)[1]) if usable else [])
        up = self.alive and self.proc.poll() is None and not frozen
        if up:
            self.nid += 1
            i = self.nid
            self.log("Call", id=i, **info)
        full = None
        if stdout == "full": full = open("/dev/full", "wb")
        if frozen:
            self.quiet()
            if frozen == "gate": self.regate()
            else: self.proc.send_signal(signal.SIGSTOP)
        p = subprocess.Popen(cmd, env=self._env(), cwd=self.cwd, stdin=subprocess.PIPE, stdout=full or subprocess.PIPE, stderr=subprocess.PIPE)
        if frozen:
            if frozen == "gate":           # the request has been read, but not answered
                t0 = time.time()
                while not self.gated() and time.time() - t0 < 0.5: time.sleep(0.002)
            else: time.sleep(0.05)
            self.kill()
        t0 = time.time()
        try: out, err = p.communicate(data, timeout=30)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            self.log("Died", msg=f"'pizauth {c}' does not end")
            raise ServerDied("command hangs")
        if full: full.close(); out = b""
        urls = re.findall(r"https?://[^\s\"']+", (out + b" " + err).decode(errors="replace"))
        r = {"code": p.returncode, "err": bool(err.strip()), "nurl": len(urls), "full": bool(full), "u": [], "c": c}
        if c in ("show", "refresh") and len(urls) == 1 and "code_challenge" in urls[0]:
            r["u"] = [self._url(urls[0])]
            self.nacct.setdefault(r["u"][0]["n"], a)
        r["out"] = self._cli_out(c, out, "-j" in opts)
        if up: self.log("CRet", id=i, **r)
        else: self.log("NCli", **r)
        if c == "shutdown" and up and p.returncode == 0:
            t0 = time.time()
            while self.proc.poll() is None:
                self._quiesce_try(); self.pump(1)
                if time.time() - t0 > 10:
                    self.log("Died", msg="server ignores shutdown")
                    raise ServerDied("server ignores shutdown")
            self.log("Exited")
            self._reap()
        return r

    def set_conf(self, ast, rnd=None, text=None, missing=False):
        """Write the configuration file (for cli("reload"))."""
        if missing:
            if os.path.exists(self.conf_path): os.unlink(self.conf_path)
        else:
            if text is None: text = render(ast, rnd)
            with open(self.conf_path, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode())
        self._reload_info = {"ok": ast is not None and not missing, "ast": self._ast_out(ast) if ast is not None and not missing else []}

    def _cli_out(self, c, out, js=False):
        if not out: return {"k": "nothing"}
        if c == "dump":
            return self.parse_ret({"buf": out, "c": "dump"})
        if not out.endswith(b"\n"): return {"k": "text"}
        s = out[:-1].decode(errors="replace")
        if c == "show": return {"k": "tok", "t": s}
        if c == "status": return {"k": "status", "l": self._status_lines(s)}
        if c == "info":
            paths = os.path.dirname(self.sockp), self.conf_shown
            h, t = re.search(r"HTTP port: (\S+)", s), re.search(r"HTTPS port: (\S+)", s)
            if js:
                try: j = json.loads(s)
                except ValueError: return {"k": "text"}
                si = j.get("server_info") or {}
                return {"k": "info", "paths": (j["cache_directory"], j["config_file"]) == paths and isinstance(j["info_format_version"], int), "key": si.get("https_pub_key") == self.key, "run": j["server_running"], "hp": si.get("http_port", "-"), "sp": si.get("https_port", "-")}
            return {"k": "info", "paths": all(x in s for x in paths) and ("server running" in s) != ("not running" in s), "key": self.key in s if self.key else "key" not in s, "run": "server running" in s, "hp": h.group(1) if h else "-", "sp": t.group(1) if t else "-"}
        return {"k": "text"}

    # ---- files
    def files(self):
        """Everything the server has written to the file system, except its socket."""
        known = {"/dev/null"}
        for p in self.sockps: known |= {p, os.path.dirname(p), os.path.dirname(os.path.dirname(p))}
        bad = set()
        for l in self.ctl.log().split("\n"):
            _, _, p = l.partition(" ")
            if p and p not in known and not p.startswith(("/proc/", "/sys/fs/cgroup")): bad.add(p)
        mine = {"c.conf", ".config", "xc", "pizauth.conf", "stderr", "sh.sock", "log"}
        for d, ds, fs in os.walk(self.dir):
            for f in fs + ds:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.dir)
                if p in known or rel in mine or re.fullmatch(r"ctl\d+|tmp|cwd|rt", rel): continue
                bad.add(p)
        try: log = open(os.path.join(self.dir, "stderr"), "rb").read()
        except OSError: log = b""
        self.pump()
        log += b"".join(self.syslog)
        leak = [x for x in self.secrets if len(x) > 5 and x.encode() in log]
        self.log("Files", files=sorted(bad)[:10], leak=bool(leak))

    def shutdown(self):
        """Ask the server to stop; logs Exited if it does."""
        if not self.quiesced: self.quiet()
        i = self.send_raw(b"shutdown:", {"c": "shutdown"})
        t0 = time.time()
        while self.proc.poll() is None or i in self.ctls:
            if self.proc.poll() is None: self._quiesce_try()
            self.pump(1)
            if time.time() - t0 > 10:
                self.log("Died", msg="server ignores shutdown")
                raise ServerDied("server ignores shutdown")
        self.log("Exited")
        self._reap()
        return i

    def _quiesce_try(self):
        for g in self.gated(): self.ctl.open_gate(g)

    # ---- callbacks
    def callback(self, n, *, code=None, error=None, https=None, host=None, port=None, state=None, extra=(), path="/", method="GET", raw=None, hdr=b"", order=None,
                 close_early=False, wf=True, lossy=False):
        """n: nonce index (state taken from it), or state=... literal ('' = absent)."""
        self.nid += 1
        i = self.nid
        myport = self.https_port if https else self.http_port
        scheme = "https" if https else "http"
        if n in self.nredir and https is None:
            u = urlsplit(self.nredir[n])
            https = u.scheme == "https"
            myport = self.https_port if https else self.http_port
            scheme = u.scheme
            if host is None: host = u.hostname
        host = "localhost" if host is None else host
        hp = myport if port is None else port
        st = self.nstates.get(n, "") if state is None else state
        q = []
        if st != "": q.append(("state", st))
        if error is not None: q.append(("error", error))
        if code is not None: q.append(("code", code))
        q += list(extra)
        if order: q = [q[j] for j in order if j < len(q)]
        hosthdr = f"{host}:{hp}" if hp else host
        if raw is None:
            qs = urlencode(q)
            raw = f"{method} {path}{'?' + qs if qs else ''} HTTP/1.1\r\nHost: {hosthdr}\r\n".encode() + hdr + b"\r\n"
            ok = wf and method == "GET"
        else:
            ok = wf
        sidx = self.nonces.get(st, 0) if st else -1
        self.log("HCall", id=i, ok=ok, st=sidx, scheme=scheme, host=host.lower(), port=hp, err=error is not None, emsg=error or "", code=[] if code is None else [code], size=len(raw))
        if error: self.mark(error)
        if code: self.secrets.add(code)
        try: s = socket.create_connection((self.https_addr if https else self.http_addr, myport), timeout=20)
        except OSError as e: raise HarnessError(f"the callback server does not accept connections: {e}")
        if https:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False; ctx.verify_mode = ssl.CERT_NONE
            try: s = ctx.wrap_socket(s, server_hostname="localhost", suppress_ragged_eofs=True)
            except OSError as e: raise HarnessError(f"the HTTPS server does not do a handshake: {e}")
            self._cert(s.getpeercert(True))
        big = len(raw) > 16000
        n0 = self.ctl.get("inrecv")
        try:
            if big: s.settimeout(0.3)
            for k in range(0, len(raw), 4096): s.sendall(raw[k:k + 4096])
        except OSError: pass
        self._flush(s, 1 if big else 5)
        if close_early:
            s.close()
            self.log("HGone", id=i)
            return i
        s.setblocking(False)
        self.https[i] = {"s": s, "buf": b"", "id": i, "lossy": lossy, "n0": n0, "alone": not self.https and not self.posts}
        self._reg(s, lambda s, i=i: self._http_in(i))
        return i

    def _flush(self, s, limit=5):
        t0 = time.time()
        while time.time() - t0 < limit:
            b = fcntl.ioctl(s.fileno(), termios.TIOCOUTQ, b"\0\0\0\0")
            if struct.unpack("i", b)[0] == 0 or s.getsockopt(socket.IPPROTO_TCP, socket.TCP_INFO, 1)[0] == 7: return     # (7: closed)
            time.sleep(0.0002)

    def _http_in(self, i):
        d = self.https[i]
        while True:
            try:
                b = d["s"].recv(1 << 16)
            except (BlockingIOError, ssl.SSLWantReadError): return
            except OSError: b = b""
            if not b: break
            d["buf"] += b
        self._http_fin(i)

    def _http_fin(self, i):
        d = self.https.pop(i)
        self._unreg(d["s"]); d["s"].close()
        m = re.match(rb"HTTP/1\.1 (\d\d\d)", d["buf"])
        st = int(m.group(1)) if m else 0
        # what the server has read meanwhile, if it can be attributed to this request
        n = self.ctl.get("inrecv") - d["n0"] if d["alone"] and not self.https and not self.posts else 0
        self.log("HRet", id=i, s=st, proc=b"processing" in d["buf"], lossy=d["lossy"], read=min(n, INF))

    def _marked(self, m):
        """The reasons that m gives: not necessarily in full if they are very long, or not representable."""
        return [x for x in self.marks if all(y[:10000] in m for y in x.split("\0"))]

    def mark(self, m):
        if m and m not in self.marks: self.marks.append(m)

    # ---- token endpoint
    def _tok_accept(self, ls):
        while True:
            try: s, _ = ls.accept()
            except BlockingIOError: return
            s.setblocking(False)
            d = {"s": s, "buf": b"", "pid": None}
            self.pend_new[s.fileno()] = d
            self._reg(s, lambda s, d=d: self._tok_in(d))

    def _tok_in(self, d):
        s = d["s"]
        try: b = s.recv(1 << 16)
        except BlockingIOError: return
        except OSError: b = b""
        if not b:
            self._unreg(s)
            if d["pid"] is None:
                self.pend_new.pop(s.fileno(), None)
                s.close()
                self.problems.append("connection to token endpoint closed without request")
                return
            d["eof"] = True
            s.close()
            if not d.get("replied"):
                self.log("PostGone", pid=d["pid"])
                self.posts.pop(d["pid"], None)
            return
        d["buf"] += b
        if d["pid"] is None:
            h, sep, body = d["buf"].partition(b"\r\n\r\n")
            if not sep: return
            m = re.search(rb"(?im)^content-length:\s*(\d+)", h)
            n = int(m.group(1)) if m else 0
            if len(body) < n: return
            self.pend_new.pop(s.fileno(), None)
            self.npost += 1
            d["pid"] = self.npost
            line = h.split(b"\r\n")[0].decode()
            method, path, _ = line.split(" ")
            host = re.search(rb"(?im)^host:\s*(\S+)", h).group(1).decode()
            ps = parse_qsl(body.decode(), keep_blank_values=True)
            d["form"] = dict(ps)
            ci = 0
            out = []
            for k, v in sorted(ps):
                if k == "code_verifier":
                    ch = base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).rstrip(b"=").decode()
                    ci = self.chals.get(ch, 0)
                    self.secrets.add(v)
                    out.append([k, "$V"])
                else: out.append([k, v])
            d["rt"] = d["form"].get("refresh_token")
            d["kind"] = "refresh" if d["form"].get("grant_type") == "refresh_token" else "auth"
            d["path"] = path
            self.posts[d["pid"]] = d
            self.log("Post", pid=d["pid"], m=method, uri=f"http://{host}{path}", p=out, ch=ci, code=d["form"].get("code", ""), rt=d["form"].get("refresh_token", ""))

    def _close_post(self, d):
        self._unreg(d["s"])
        d["s"].close()

    def newtok(self, pre="at"):
        self.tokn += 1
        t = f"{pre}{self.tokn}-{self.rnd.randrange(16 ** 8):08x}"
        k = self.rnd.randrange(60)          # (any string will do)
        if k < len(ODD): t = ODD[k].replace("@", t)
        self.secrets.add(t)
        return t

    def reply(self, pid, r):
        """r: abstract reply record; see REPLIES.  Logs PostReply."""
        d = self.posts.pop(pid, None)
        if d is None: return False
        k = r["k"]
        body, status, how = b"", 200, "ok"
        if k == "ok":
            j = {"access_token": r["tok"], "expires_in": r.get("rawein", r["ein"]), "token_type": "Bearer"}
            if r["rtok"]: j["refresh_token"] = r["rtok"][0]
            j.update(r.get("extra", {}))
            body = json.dumps(j).encode()
            self.secrets.add(r["tok"])
            for x in r["rtok"]: self.secrets.add(x)
        elif k == "ejson":
            body = json.dumps(dict({"error": r["why"], "error_description": "d"}, **r.get("extra", {}))).encode(); self.mark(r["why"])
            status = r.get("status", 200)
        elif k == "status":
            status = r["code"]; body = r.get("body", "sorry").encode(); self.mark(r["why"])
        elif k == "bad":
            body = r["body"].encode() if isinstance(r["body"], str) else r["body"]
        elif k in ("net", "garb"): how = r["how"]
        elif k == "trunc": how = r["how"]
        else: raise HarnessError(k)
        lg = {x: r[x] for x in r if x in ("k", "tok", "rtok", "ein", "rep", "why")}
        if k in ("net", "bad", "trunc", "garb"): lg["why"] = ""
        if k == "status": lg["why"] = r["why"]
        self.log("PostReply", pid=pid, r=lg)
        d["replied"] = True
        s = d["s"]
        s.setblocking(True); s.settimeout(10)
        self._unreg(s)
        try:
            if how == "ok":
                hd = f"HTTP/1.1 {status} X\r\nContent-Length: {len(body)}\r\nContent-Type: application/json\r\nConnection: close\r\n\r\n".encode()
                s.sendall(hd + body)
            elif how == "garbage": s.sendall(b"garbage\r\n\r\n")
            elif how == "rst": s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif how == "close": s.shutdown(socket.SHUT_WR)
            elif how == "truncbody":
                s.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 1000\r\nConnection: close\r\n\r\n{\"access_token\": \"")
            elif how == "trunchead": s.sendall(b"HTTP/1.1 200 OK\r\nContent-Le")
            elif how == "badutf8": pass
            if how not in ("rst",):
                s.shutdown(socket.SHUT_WR)
                t0 = time.time()
                while True:                 # wait for the client to have consumed the reply
                    try:
                        if not s.recv(4096): break
                    except socket.timeout: raise HarnessError("client does not close")
                    except OSError: break
        except (BrokenPipeError, ConnectionResetError): pass
        except OSError: pass
        s.close()
        return True

    # ---- commands
    def _sh_accept(self, ls):
        while True:
            try: s, _ = ls.accept()
            except BlockingIOError: return
            s.setblocking(False)
            d = {"s": s, "buf": b"", "cid": None}
            self.pend_new[s.fileno()] = d
            self._reg(s, lambda s, d=d: self._sh_in(d))

    def _sh_in(self, d):
        s = d["s"]
        try: b = s.recv(1 << 20)
        except BlockingIOError: return
        except OSError: b = b""
        if not b:
            self._unreg(s); 
            self.pend_new.pop(s.fileno(), None)
            s.close()
            if d["cid"] is not None and not d.get("ended"):
                self.cmds.pop(d["cid"], None)
                self.log("CmdKilled", cid=d["cid"])
            return
        d["buf"] += b
        if d["cid"] is None and len(d["buf"]) >= 4:
            n = struct.unpack("<I", d["buf"][:4])[0]
            if len(d["buf"]) < 4 + n: return
            self.pend_new.pop(s.fileno(), None)
            parts = d["buf"][4:4 + n].split(b"\0")[:-1]
            parts = [p.decode(errors="replace") for p in parts]
            d["pid"] = int(parts[0]); ac = int(parts[1])
            d["args"] = parts[2:2 + ac]
            d["env"] = dict(p.split("=", 1) for p in parts[2 + ac:] if "=" in p)
            if d["env"].get("PZ_GEN") != str(self.gen):      # a child of a server that is gone
                self._unreg(s); s.close()
                return
            self.hellos += 1
            self.ncmd += 1
            d["cid"] = self.ncmd
            self.cmds[d["cid"]] = d
            self._cmd_started(d)

    def _cmd_started(self, d):
        env = d["env"]
        cmd = d["args"][1] if len(d["args"]) == 2 and d["args"][0] == "-c" else "?"
        r = {"cid": d["cid"], "cmd": cmd, "a": env.get("PIZAUTH_ACCOUNT", "?")}
        if "PIZAUTH_URL" in env: d["kind"] = "auth"; r["u"] = self._url(env["PIZAUTH_URL"]); self.nacct.setdefault(r["u"]["n"], r["a"])
        elif "PIZAUTH_MSG" in env:
            d["kind"] = "err"
            m = env["PIZAUTH_MSG"]
            r["named"] = r["a"] in m
            r["marks"] = self._marked(m)
        elif "PIZAUTH_EVENT" in env: d["kind"] = "event"; r["ev"] = env["PIZAUTH_EVENT"]
        else: d["kind"] = "tif"
        leak = [x for x in self.secrets if len(x) > 5 and any(x in v for v in list(env.values()) + d["args"])]
        r["leak"] = bool(leak)
        r["k"] = d["kind"]
        self.log("CmdStart", **r)

    def cmd_end(self, cid, code=0):
        d = self.cmds.pop(cid, None)
        if d is None: return False
        self.log("CmdEnd", cid=cid, code=code)
        d["ended"] = True
        try: d["s"].send(bytes([code]))
        except OSError: pass
        t0 = time.time()
        while os.path.exists(f"/proc/{d['pid']}"):
            if time.time() - t0 > 10: raise HarnessError("command not reaped")
            self.pump()
            time.sleep(0.0003)
            if self.proc.poll() is not None: break
        return True

    # ---- time
    def advance(self, d):
        if d <= 0: return
        if not self.quiesced: self.quiet()
        self.log("Advance", d=d)
        self.t += d
        c = self.ctl
        for n in ("real", "boot", "mono"): c.set(n, c.get(n) + d * NS)

    def suspend(self, d):
        if not self.quiesced: self.quiet()
        self.log("Suspend", d=d)
        self.t += d
        self.skew += d
        c = self.ctl
        for n in ("real", "boot"): c.set(n, c.get(n) + d * NS)

    def net(self, up):
        if not self.quiesced: self.quiet()
        self.log("Net", up=up)
        self.netup = up
        self.ctl.set("refuse", 0 if up else self.tok_port)

    def trace(self):
        return {"ev": self.ev, "uris": self.uris}


class ServerDied(Exception): pass


def pubkey(der):
    """The public key in an X.509 certificate."""
    def tlv(b, i):
        t, n, i = b[i], b[i + 1], i + 2
        if n & 0x80: k = n & 0x7f; n = int.from_bytes(b[i:i + k], "big"); i += k
        return t, i, i + n                     # tag, begin and end of the contents
    _, i, _ = tlv(der, 0); _, i, end = tlv(der, i)
    parts = []
    while i < end:
        t, b, e = tlv(der, i); parts.append((t, b)); i = e
    if parts[0][0] == 0xa0: parts = parts[1:]  # serial, signature algorithm, issuer, validity, subject, key
    _, _, e = tlv(der, parts[5][1]); t, b, e = tlv(der, e)
    return der[b + 1:e]


def OK(tok, ein, rtok=None, boot_now=None, extra=None):
    """A well-formed token reply.  ein may exceed what Instant can represent."""
    rep = True
    if ein + BOOT0 + 10 ** 9 > 2 ** 63 - 1: rep = False
    r = {"k": "ok", "tok": tok, "ein": cap(ein), "rawein": ein, "rep": rep, "rtok": [] if rtok is None else [rtok]}
    if extra: r["extra"] = extra
    return r


def STATUS(code, body=None): return {"k": "status", "code": code, "why": str(code), "body": body or "sorry"}
def EJSON(msg, status=200, extra={}): return {"k": "ejson", "why": msg, "status": status, "extra": extra} if status == 200 else {"k": "status", "code": status, "why": str(status), "body": json.dumps({"error": msg})}
def BAD(body): return {"k": "bad", "body": body}
def NET(how="close"): return {"k": "garb" if how == "garbage" else "net", "how": how}
def TRUNC(how="truncbody"): return {"k": "trunc", "how": how}


def acct(w, name, *, auth_uri="http://prov.example/auth", fields=None, cid="cid", secret="sec", redirect=None, scopes=("s1",), tok="/t", tok_uri=None, rbe=None, ral=None, rr=None,
         login_hint=None, extra=()):
    f = [S("auth_uri", auth_uri), S("client_id", cid), S("token_uri", tok_uri or w.tok_uri(tok))]
    if secret is not None: f.append(S("client_secret", secret)); w.secrets.add(secret) if len(secret) > 5 else None
    if redirect is not None: f.append(S("redirect_uri", redirect))
    if scopes is not None: f.append(L("scopes", *scopes))
    if fields is not None: f.append(M("auth_uri_fields", *fields))
    if login_hint is not None: f.append(S("login_hint", login_hint))
    for n, v in (("refresh_before_expiry", rbe), ("refresh_at_least", ral), ("refresh_retry", rr)):
        if v is not None: f.append(T(n, v))
    return A(name, *(f + list(extra)))


def conf(*accts, notify=None, interval=None, err=None, event=None, tif=None, rbe=None, ral=None, rr=None, http=None, https=None):
    o = []
    for n, v in (("auth_notify_cmd", notify), ("error_notify_cmd", err), ("token_event_cmd", event), ("transient_error_if_cmd", tif)):
        if v is not None: o.append(S(n, v))
    for n, v in (("auth_notify_interval", interval), ("refresh_before_expiry", rbe), ("refresh_at_least", ral), ("refresh_retry", rr)):
        if v is not None: o.append(T(n, v))
    for n, v in (("http_listen", http), ("https_listen", https)):
        if v is not None: o.append(N(n) if v == "none" else S(n, v))
    return o + list(accts)
