"""Behaviours generated from the specification (spec/Gen.tla) as stimuli for the real server.

  python3 harness/gen.py N       simulate about N behaviours, choose the most useful, and write them to gen/behaviours.json

A behaviour is what the environment did, each stimulus with the situation it met in the model.  They are chosen greedily so that
together they cover the pairs of situation and stimulus that were seen at all.  Replaying one is a scenario like any other
(family "gen"): the recorded trace is validated against the specification, so it does not matter if the real server, whose threads
are free to run in another order, has got into a different situation."""
import json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import tlcrun

FILE = os.path.join(tlcrun.ROOT, "gen", "behaviours.json")
NCONF = 5
_loaded = None


def load():
    global _loaded
    if _loaded is None:
        with open(FILE) as f: _loaded = json.load(f)["behaviours"]
    return _loaded


def simulate(conf, num, depth, seed, mode):
    d = tempfile.mkdtemp(prefix="gen-")
    cfg = os.path.join(d, "Gen.cfg")
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION Spec\nCONSTANTS\n  Unreachable <- NeverUnreachable\n  Free <- NothingFree\n  RedirectMatches <- AllMatch\n  Depth = {depth}\n  Conf0 = {conf}\n  Mode = \"{mode}\"\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    rc, out = tlcrun.run("Gen", cfg, workers=1, heap="2g", timeout=3000, extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
    subprocess.run(["rm", "-rf", d])
    if "LOG" not in out: raise RuntimeError(out[-2000:])
    res, seen = [], set()
    for l in out.split("\n"):
        if not l.startswith('"LOG '): continue
        o = json.loads(json.loads(l)[4:])
        k = json.dumps(o["log"][:-1])
        if k in seen: continue
        seen.add(k)
        res.append((conf, o["log"]))
    return res


def pairs(log):
    """What a behaviour covers."""
    r = set()
    for x in log:
        e, s = x["e"], x["s"]
        act = (e["k"], e.get("w"), e.get("r"), e.get("code"), e.get("cur"), e.get("err"), e.get("i") if e["k"] == "reload" else None, e.get("rt"), e.get("live"), e.get("up"))
        g = (s["ev"] if e.get("w") == "event" else None, s["net"] if e["k"] in ("show", "refresh", "cb", "adv") else None, s["sus"] if e["k"] == "adv" else None, s["q"])
        for a in ([e["a"]] if e.get("a") else ["x", "y"]): r.add(json.dumps([act, s[a], g]))
    return r


def slim(log):
    out = []
    for x in log:
        e = dict(x["e"])
        if x["s"]["q"]: e["q"] = 1
        out.append(e)
    return out


def build(total, keep, depth=110, seed=1):
    jobs = [(c, max(1, total // (NCONF * 8)), depth + 30 * (k % 3) + 60 * (k % 2), seed * 1000 + c * 10 + k, ("mixed", "refresh")[k % 2]) for c in range(1, NCONF + 1) for k in range(8)]
    with ThreadPoolExecutor(int(os.environ.get("W", "6"))) as p: all_ = [b for r in p.map(lambda j: simulate(*j), jobs) for b in r]
    cov = [pairs(l) for _, l in all_]
    whole = set().union(*cov)
    left, chosen = set(whole), []
    import heapq
    heap = [(-len(c), i) for i, c in enumerate(cov)]
    heapq.heapify(heap)
    while heap and len(chosen) < keep and left:
        n, i = heapq.heappop(heap)
        m = len(cov[i] & left)
        if m == 0: continue
        if -m > (heap[0][0] if heap else 0): heapq.heappush(heap, (-m, i)); continue
        chosen.append(i); left -= cov[i]
    os.makedirs(os.path.dirname(FILE), exist_ok=True)
    with open(FILE, "w") as f:
        f.write('{"seen": %d, "covered": %d, "behaviours": [\n' % (len(whole), len(whole) - len(left)))
        f.write(",\n".join(json.dumps({"c": all_[i][0], "log": slim(all_[i][1])}, separators=(",", ":")) for i in chosen))
        f.write("\n]}\n")
    print(len(all_), "behaviours,", len(whole), "pairs seen,", len(whole) - len(left), "covered by", len(chosen))
    for k in (20, 50, 100, 200, 400, 800):
        if k <= len(chosen): print("  first", k, len(set().union(*(cov[i] for i in chosen[:k]))))


if __name__ == "__main__": build(int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 600)
