"""check.py Cxx [--tier quick|thorough] [--replay FILE]"""
import json, multiprocessing as mp, os, random, signal, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlcrun, props, explain, mc, gen
from pz import HarnessError, ServerDied, ROOT
import scen

OUT = os.path.join(ROOT, "out")
JOB_TIMEOUT = 150


class Timeout(Exception): pass


def _alarm(*_): raise Timeout()


def one(job):
    """Run one scenario; -> dict(job, trace, err)."""
    name, seed = job
    rnd = random.Random(f"{name}/{seed}")
    w, err = None, None
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(JOB_TIMEOUT)
    t0 = time.time()
    try:
        w = scen.make(name, rnd)
        scen.play(w, name, rnd)
    except ServerDied as e: pass
    except Timeout: err = "scenario did not end (server hangs?)"
    except HarnessError as e: err = f"{e}"
    except Exception: err = "internal: " + traceback.format_exc()
    finally: signal.alarm(0)
    t = {"ev": [], "uris": {}}
    steps = 0
    if w is not None:
        t = w.trace(); steps = w.steps
        t["problems"] = w.problems
        try: w.close()
        except Exception: pass
    return {"job": job, "trace": t, "err": err, "t": time.time() - t0, "steps": steps}


def jobs_for(pid, tier, seed):
    d = props.P[pid]
    th = tier == "thorough"
    js = []
    for n, (f, ps, o) in scen.DIRECTED.items():
        js += [(n, seed * 1000 + i) for i in range((12 if th else 2) if pid in ps else (3 if th else 1))]
    g = d.get("gen", (40, 300))[1 if th else 0]     # the ones that cover most, and some of the others
    n, k = len(gen.load()), sorted(props.P).index(pid)
    js += [(f"gen.{i if i < g // 2 else (i + k * 17 + seed * 7) % n}", seed * 1000 + i) for i in range(g)]
    for fam, q, t in d["rand"]:
        js += [(fam, seed * 1000 + i) for i in range(t if th else q)]
    return js


def validate_all(results, relax=(), tmo=180):
    """-> (list of marks (None: undecided), generated, distinct)"""
    n = len(results)
    marks = [None] * n
    gen = dist = 0
    order = sorted(range(n), key=lambda i: -len(results[i]["trace"]["ev"]))
    k = max(1, min(8, n))
    while n / k > 40: k += 8
    groups = [order[i::k] for i in range(k)]

    def go(g, timeout):
        try: return g, *tlcrun.validate([results[i]["trace"] for i in g], timeout=timeout, relax=relax)
        except tlcrun.TLCError as e: return g, [("error", str(e)[-3000:]) if len(g) == 1 else None] * len(g), 0, 0

    def search(groups, timeout):
        nonlocal gen, dist
        with ThreadPoolExecutor(8) as p:
            for g, hw, a, b in p.map(lambda g: go(g, timeout), groups):
                for i, h in zip(g, hw): marks[i] = h
                gen += a; dist += b
    search(groups, tmo)
    left = [i for i in range(n) if marks[i] is None]
    if left and n > len(groups): search([[i] for i in left], 60)
    return marks, gen, dist


def accepted(r, m): return m == len(r["trace"]["ev"])


def replay_file(pid, r, m, why):
    os.makedirs(OUT, exist_ok=True)
    name, seed = r["job"]
    f = os.path.join(OUT, f"{pid}-{name}-{seed}.json")
    at = m if isinstance(m, int) else None
    json.dump({"property": pid, "job": r["job"], "at": at, "why": why, "event": r["trace"]["ev"][at] if at is not None and at < len(r["trace"]["ev"]) else None,
               "trace": {"ev": r["trace"]["ev"], "uris": r["trace"]["uris"]}}, open(f, "w"))
    return f


def describe(r, m):
    ev = r["trace"]["ev"]
    if not isinstance(m, int) or m >= len(ev): return "the recorded events cannot be interpreted by the specification"
    return f"event {m} of {len(ev)} has no explanation: {explain.sh(ev[m])}"


CONFIRM = 3


def check(pid, tier, seed):
    t0 = time.time()
    d = props.P[pid]
    b = subprocess.run([os.path.join(ROOT, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print("build failed:\n" + b.stdout[-3000:]); return 2
    tb = time.time()
    jobs = jobs_for(pid, tier, seed)
    reruns = unconfirmed = 0
    with ThreadPoolExecutor(2) as bg:
        fmc = bg.submit(mc.run_all, d["mc"], tier)
        with mp.get_context("fork").Pool(8, maxtasksperchild=20) as pool:
            results = pool.map(one, jobs, chunksize=1)
            for k in range(2):
                bad = [i for i, r in enumerate(results) if r["err"]]
                if not bad: break
                bad = bad[:8]
                for i, r in zip(bad, pool.map(one, [jobs[i] for i in bad], chunksize=1)): results[i] = r
        ts = time.time()
        marks, gen, dist = validate_all(results)
        mcs = fmc.result()
    viol, notes = [], []
    undecided = sum(m is None for m in marks)
    care = d["care"]
    relax = sorted(props.ALL - care)

    def judge(rs, ms):
        """-> {index: why} of those which violate this property, {index: why} of those which violate only others"""
        nonlocal gen, dist
        rej = [i for i, r in enumerate(rs) if ms[i] is not None and not accepted(r, ms[i])]
        bad, other = {}, {}
        m2 = [ms[i] for i in rej]
        if rej and relax:
            m2, g2, d2 = validate_all([rs[i] for i in rej], relax=relax, tmo=60)
            gen += g2; dist += d2
        for i, m in zip(rej, m2): (other if accepted(rs[i], m) else bad)[i] = describe(rs[i], ms[i])
        for i, r in enumerate(rs):
            if r["err"] and i not in rej: bad[i] = r["err"] if r["err"].startswith("internal") else f"the server does not serve this scenario to its end: {r['err']}"
        return bad, other

    bad, other = judge(results, marks)
    for i, why in other.items(): notes.append(f"note: scenario {results[i]['job']}: deviation outside of {pid}: {why}")
    if bad:
        # A violation must show again when the scenario is run again (a disturbance of the sandbox does not).
        pick = sorted(bad)[:8]
        rep = max(CONFIRM, 24 // len(pick))
        rj = [jobs[i] for i in pick for _ in range(rep)]
        with mp.get_context("fork").Pool(8, maxtasksperchild=20) as pool: again = pool.map(one, rj, chunksize=1)
        m3, g3, d3 = validate_all(again, tmo=90)
        gen += g3; dist += d3; reruns = len(again)
        bad2, _ = judge(again, m3)
        for k, i in enumerate(pick):
            if any(j // rep == k for j in bad2): viol.append((results[i], marks[i], bad[i]))
            else: unconfirmed += 1; notes.append(f"note: scenario {results[i]['job']}: not seen again in {rep} runs: {bad[i][-600:]}")
        for r, m, why in viol:
            if why.startswith("internal"): print(why); print("scenario", r["job"]); return 2
    for x in mcs:
        if x["status"] != "ok":
            print(f"model checking {x['name']} failed:\n{x['out'][-3000:]}"); return 2
    wall = time.time() - t0
    samples = []
    for r, m in list(zip(results, marks))[:: max(1, len(results) // 3)][:3]:
        samples.append({"scenario": r["job"][0], "seed": r["job"][1], "events": len(r["trace"]["ev"]), "accepted": accepted(r, m), "first_events": [explain.sh(e) for e in r["trace"]["ev"][:25]]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(viol),
          "coverage": {"states": dist + sum(x["distinct"] for x in mcs), "transitions": gen + sum(x["generated"] for x in mcs),
                       "traces_validated_against_impl": sum(accepted(r, m) for r, m in zip(results, marks)),
                       "scenarios_run": len(results), "events_validated": sum(len(r["trace"]["ev"]) for r in results),
                       "scenario_families": {n: sum(1 for r in results if r["job"][0] == n) for n in sorted({r["job"][0] for r in results})},
                       "undecided_traces": undecided, "confirmation_runs": reruns, "unconfirmed": unconfirmed, "deviations_attributed_elsewhere": len(notes),
                       "event_kinds": kinds(results),
                       "model_checking_runs": [{k: x[k] for k in ("name", "distinct", "generated", "wall_s", "properties", "complete")} for x in mcs],
                       "timing_s": {"build": round(tb - t0, 1), "scenarios": round(ts - tb, 1), "validation": round(wall - (ts - t0), 1)},
                       "samples": samples},
          "assumptions": ["the shim's virtual time and quiescence detection are faithful", "TLC, the trace recorder and the projection of replies are correct",
                          "only the schedules, inputs and histories actually run (seeded, listed by family) are compared with the code"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for n in notes[:10]: print(n)
    for l in known(pid): print(l)
    if viol:
        for r, m, why in viol[:8]:
            f = replay_file(pid, r, m, why)
            print(f"scenario {r['job'][0]} seed {r['job'][1]}: {why}")
            print(f"VIOLATION property={pid} replay={f}")
        return 1
    print(f"{pid}: {len(results)} scenarios, {ev['coverage']['events_validated']} events, {dist} states, mc {[(x['name'], x['distinct']) for x in mcs]}, undecided {undecided}, {wall:.1f}s {ev['coverage']['timing_s']}")
    return 0


def kinds(results):
    c = {}
    for r in results:
        for e in r["trace"]["ev"]:
            k = e["e"]
            if k == "Call": k += " " + e["c"]
            elif k == "CmdStart": k += " " + e["k"]
            elif k == "PostReply": k += " " + e["r"]["k"]
            c[k] = c.get(k, 0) + 1
    return dict(sorted(c.items()))


def known(pid):
    """Known findings of this property (fixed ones suppress and print nothing)."""
    f = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if not os.path.exists(f): return []
    return [l.strip() for l in open(f) if l.startswith(f"KNOWN-FINDING: property={pid} ")]


def replay(f):
    d = json.load(open(f))
    print("recorded:", d["why"])
    subprocess.run([os.path.join(ROOT, "build.sh")], check=True)
    r = one(tuple(d["job"]))
    marks, _, _ = validate_all([r])
    if accepted(r, marks[0]) and not r["err"]: print("the scenario is accepted now"); return 0
    print("now:", r["err"] or describe(r, marks[0]))
    m = marks[0]
    if isinstance(m, int):
        for i in range(max(0, m - 25), min(len(r["trace"]["ev"]), m + 3)): print(">>" if i == m else "  ", i, explain.sh(r["trace"]["ev"][i]))
        ss, _ = explain.stuck(r["trace"], m)
        for s in ss[-2:]: print("specification state:", json.dumps(explain.compact(s))[:4000])
    print(f"VIOLATION property={d['property']} replay={f}")
    return 1


if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if "--replay" in a: sys.exit(replay(a[a.index("--replay") + 1]))
    try: sys.exit(check(a[0], tier, int(os.environ.get("VERIF_SEED", "1"))))
    except Exception:
        traceback.print_exc(); sys.exit(2)
