"""Sim: a World with conveniences used by all scenario families."""
import json, random
from pz import *
import dumpfmt


class Sim(World):
    def __init__(self, rnd, **kw):
        kw.setdefault("background", rnd.random() < .3)
        super().__init__(None, seed=rnd.randrange(1 << 30), **kw)
        self.rng = rnd
        self.exps = []                     # instants at which tokens given expire
        self.viacli = 0                    # fraction of the requests that are made by the command line program

    # -- requests, by the command line or directly
    def _c(self): return self.viacli and self.alive and self.rng.random() < self.viacli
    def show(self, a, url=True): return self.cli("show", a, url) if self._c() else super().show(a, url)
    def refresh(self, a, url=True): return self.cli("refresh", a, url) if self._c() else super().refresh(a, url)
    def revoke(self, a): return self.cli("revoke", a) if self._c() else super().revoke(a)
    def status(self): return self.cli("status") if self._c() else super().status()
    def dump(self): return self.cli("dump") if self._c() else super().dump()
    def info_cmd(self): return self.cli("info", opts=self.rng.choice([(), ("-j",)])) if self._c() else super().info_cmd()
    def restore(self, data, usable=None): return self.cli("restore", data=data, usable=usable) if self._c() else super().restore(data, usable)
    def reload(self, ast, rnd=None, text=None, missing=False):
        if not self._c(): return super().reload(ast, rnd, text, missing)
        if any(d["c"] == "reload" for d in self.ctls.values()): self.quiet()
        self.set_conf(ast, rnd, text, missing)
        return self.cli("reload")

    # -- conveniences
    def q(self): self.quiet(); return self

    def go(self, *ast_args, **kw):
        self.start(conf(*ast_args, **kw)); self.quiet()

    def nonce(self, a):
        """The latest known request of account a."""
        ns = [n for n, x in self.nacct.items() if x == a]
        return max(ns) if ns else None

    def post(self, kind=None):
        """pid of the latest outstanding request at the token endpoint."""
        ps = [p for p, d in self.posts.items() if kind is None or d["kind"] == kind]
        return max(ps) if ps else None

    def ask(self, a, via="show"):
        (self.show if via == "show" else self.refresh)(a); self.quiet()
        return self.nonce(a)

    def auth(self, a, **kw):
        """Bring a to 'exchange outstanding'."""
        self.ask(a)
        n = self.nonce(a)
        if n is None: return None
        self.callback(n, code=f"code-{n}-{self.rng.randrange(1 << 24):06x}", **kw); self.quiet()
        return n

    def tok(self, ein=3600, rtok=True, **kw):
        if isinstance(ein, int): self.exps.append(self.t + ein)
        return OK(self.newtok(), ein, self.newtok("rt") if rtok is True else (rtok or None), **kw)

    @property
    def granted(self): return [e["r"] for e in self.ev if e["e"] == "PostReply" and e["r"]["k"] == "ok"]

    def get(self, a, ein=3600, rtok=True):
        self.auth(a)
        r = self.tok(ein, rtok)
        p = self.post("auth")
        if p is None: return None
        self.reply(p, r); self.quiet()
        return r

    def endall(self, code=0, kinds=None):
        for _ in range(60):
            cs = [c for c, d in self.cmds.items() if kinds is None or d["kind"] in kinds]
            if not cs: return
            for c in cs: self.cmd_end(c, code)
            self.quiet()

    def replyall(self, f=None):
        for _ in range(30):
            if not self.posts: return
            for p in list(self.posts): self.reply(p, f() if f else self.tok())
            self.quiet()

    def fwd(self, d): self.advance(d); self.quiet()

    def accounts(self):
        return [unesc(n["name"]) for n in self.ast if n["k"] == "a"]

    def re(self, *a, **kw):
        """Reload a configuration built by conf()."""
        ast = conf(*a, **kw)
        self.reload(ast); self.ast = ast

    def probe(self, shows=True):
        self.status(); self.quiet()
        self.dump(); self.quiet()
        if shows:
            for a in self.accounts(): self.show(a)
            self.quiet()
            self.status(); self.quiet()

    def lastdump(self):
        self.dump(); self.quiet()
        return self.dumps[self.last_dump]

    def forge(self, toks, change=None):
        """A dump of the current configuration in which the accounts of toks have the given (tok, rtok, ein)."""
        ver, acc = dumpfmt.decode(self.lastdump())
        now = WALL0 + self.t
        for a, x in toks.items():
            if a not in acc: continue
            c, ts = acc[a]
            acc[a] = (c, None if x is None else {"tok": x[0], "rtok": x[1], "obt": (now + (x[3] if len(x) > 3 else 0), 0), "exp": (now + x[2], 0)})
            if x: self.secrets.update(y for y in x[:2] if y)
        if change: change(acc)
        return dumpfmt.make(acc, 1)

    # -- schedule control
    def endall_now(self, cids, code=0):
        for c in cids: self.cmd_end(c, code)

    def step(self, i=None):
        r = self.release(i)
        self.settle()
        return r

    def run_others(self, held, limit=80):
        """Let every gated thread except those held run until they block or finish."""
        for _ in range(limit):
            g = [i for i in self.gated() if i not in held]
            if not g: return
            self.step(self.rng.choice(g))
