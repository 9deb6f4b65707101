"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")


class TLCError(Exception): pass


def run(module, cfg=None, *, env=None, workers=1, heap="2g", timeout=600, extra=(), cwd=None, par=False, dfs=False):
    meta = tempfile.mkdtemp(prefix="tlc-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        cmd = ["java", "-XX:+UseParallelGC" if par else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1" if not par else "-XX:+TieredCompilation", f"-Xmx{heap}", "-Xss64m",
               *(["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []), "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *extra, module + ".tla"]
        e = dict(os.environ); e.update(env or {})
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def annotate(ev):
    """Look-ahead used by the trace specification (see Eager in Trace.tla)."""
    fes = [{"a": e["a"], "ev": e["ev"]} for e in ev if e["e"] == "CmdStart" and e["k"] == "event"]
    calls, posted = {}, set()
    for e in ev:
        if e["e"] == "HCall" and e["code"]: k = (e["st"], e["code"][0]); calls[k] = calls.get(k, 0) + 1
        if e["e"] == "Post" and e["code"]: posted.add((e["ch"], e["code"]))
    out = []
    fs = True
    wr = wc = False
    pg = []
    rp = []; nf = 0
    n = fb = len(fes)
    for e in reversed(ev):
        k = e["e"]
        if k in ("Quiet", "Advance", "Suspend"): pg = []
        if k == "PostGone": pg = pg + [e["pid"]]
        if k == "Quiet": wr = wc = False; rp = []; nf = 0
        if k == "ConnFail": nf += 1
        if k == "Post" and e["rt"]: rp = rp + [e["rt"]]
        if k in ("Call", "HCall"): wc = True
        if k == "Call" and e["c"] == "reload" and e["ok"]: wr = True; fs = False; fb = n
        if k in ("Stop", "Exited", "Died"): fs = True; fb = n
        if k == "CmdStart" and e["k"] == "event": n -= 1
        x = dict(e, wr=wr, wc=wc, fi=n, fb=fb, fs=fs, pg=pg, rp=rp, nf=nf)
        if k == "HCall": c = (e["st"], e["code"][0]) if e["code"] else None; x["sure"] = bool(c and not e["err"] and e["st"] > 0 and calls[c] == 1 and c in posted)
        out.append(x)
    return out[::-1], fes


def overdue(ev, start, end, gone, key, d):
    """Those which were given up, or may have been by the time they were answered."""
    now, t0, out = 0, {}, []
    for e in ev:
        if e["e"] in ("Advance", "Suspend"): now += e["d"]
        elif e["e"] == start: t0[e[key]] = now
        elif e["e"] == gone or e["e"] == end and now - t0.get(e[key], now) >= d: out.append(e[key])
    return out


def line(t):
    ev, fes = annotate(t["ev"])
    return json.dumps({"ev": ev, "fes": fes, "gone": overdue(t["ev"], "Post", "PostReply", "PostGone", "pid", 30), "killed": overdue(t["ev"], "CmdStart", "CmdEnd", "CmdKilled", "cid", 30)})


def validate(traces, timeout=600, heap="2g", relax=()):
    """-> (list of high-water marks, states generated, distinct states).  A trace is accepted if its mark is its length;
    a mark is None if the time did not suffice."""
    uris = {}
    for t in traces: uris.update(t["uris"])
    d = tempfile.mkdtemp(prefix="pzt-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        f = os.path.join(d, "t.ndjson")
        with open(f, "w") as o:
            o.write(json.dumps({"uris": uris, "relax": list(relax)}) + "\n")
            for t in traces: o.write(line(t) + "\n")
        try: rc, out = run("Trace", env={"TRACES": f}, timeout=timeout, heap=heap, dfs=True)
        except subprocess.TimeoutExpired as e:
            out = e.stdout.decode(errors="replace") if isinstance(e.stdout, bytes) else e.stdout or ""
            acc = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)}
            return [len(t["ev"]) if i + 1 in acc else None for i, t in enumerate(traces)], 0, 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.search(r'<<\s*"HWM",\s*<<(.*?)>>\s*>>', out, re.S)
    if not m or "Invariant" in out and "is violated" in out:
        raise TLCError(out[-6000:])
    hw = [int(x) for x in m.group(1).replace("\n", " ").split(",") if x.strip()]
    gen, dist = stats(out)
    return hw, gen, dist
