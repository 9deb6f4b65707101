"""Exhaustive model checking of small closed configurations of the specification.

  python3 harness/mc.py NAME [quick|thorough]     check one configuration
  python3 harness/mc.py                            check all (quick)

The properties are stated in spec/MC.tla (and Wakeup.tla, Startup.tla); a configuration bounds the environment."""
import os, subprocess, sys, time
import tlcrun

AUTH_I = "TypeOK SupersededIffDead LiveExchange LiveRefresh OneRefresh NeverStuck TokensBelong InOrder Handed TicketsAlive VersionsUnique Answered DueEnabled Counted"
AUTH_P = "SupersededNoEffect CompletedTaken Shown CallbackMatched EventsMatchChanges FailureReported QueueKept NotifyRight TransientKept PermanentRemoved Verdict ReloadKeeps RestoreExact ReadOnly"

# name -> tier -> (Confs, Calls, MaxCalls, MaxTime, Steps, MaxSuspend, Lifes, Reps, MaxRep)
PIZ = {
    "Auth": dict(quick=("ConfsAuth", "show revoke callback cberror badcallback", 4, 1, "1", 0, "9", "ok status", 1),
                 thorough=("ConfsAuth", "show refresh revoke callback cberror badcallback", 5, 2, "1", 0, "9", "ok net status", 1)),
    "AuthTwo": dict(quick=("ConfsAuth2", "show callback cberror", 4, 0, "1", 0, "9", "ok", 0),
                    thorough=("ConfsAuth2", "show revoke callback cberror", 5, 1, "1", 0, "9", "ok status", 1)),
    "Refresh": dict(quick=("ConfsRefresh", "show refresh revoke callback", 3, 4, "1", 0, "3", "ok net status", 1),
                    thorough=("ConfsRefresh", "show refresh revoke callback", 4, 5, "1", 0, "2 4", "ok okn net status ejson", 2)),
    "RefreshLong": dict(quick=("ConfsRefresh", "show callback", 2, 8, "1", 0, "4", "ok okn net status", 3),
                        thorough=("ConfsRefresh", "show refresh callback", 3, 9, "1", 0, "4", "ok okn net status", 5)),
    "Reload": dict(quick=("ConfsReload", "show callback reload dump restore badreload", 4, 1, "1", 0, "9", "ok", 0),
                   thorough=("ConfsReload", "show callback reload dump restore revoke badreload badrestore", 5, 2, "1", 0, "9", "ok net", 1)),
    "Notify": dict(quick=("ConfsNotify", "show reload callback", 4, 4, "1", 0, "9", "ok", 0),
                   thorough=("ConfsNotify", "show revoke reload callback", 5, 5, "1 2", 0, "9", "ok", 0)),
    "Events": dict(quick=("ConfsEvents", "show revoke callback", 4, 1, "1", 0, "9", "ok", 0),
                   thorough=("ConfsEvents", "show revoke callback", 6, 1, "1", 0, "9", "ok", 0)),
    "Suspend": dict(quick=("ConfsRefresh", "show callback", 2, 6, "1", 3, "3", "ok net", 1),
                    thorough=("ConfsRefresh", "show revoke callback", 3, 7, "1", 5, "3", "ok okn net", 2)),
}
# name -> (module, tier -> constants, invariants, temporal properties, deliberate mistakes which have to be found)
SMALL = {
    "Wakeup": ("Wakeup", dict(quick=dict(MaxTime=6, MaxWait=2, MaxSuspend=3, MaxChanges=2), thorough=dict(MaxTime=9, MaxWait=3, MaxSuspend=6, MaxChanges=3)),
               "NothingOverdue NoLostWakeup", "Done", ["notify_first", "no_predicate", "no_cap", "clear_late"]),
    "EventQueue": ("EventQueue", dict(quick=dict(Threads="{1, 2}", MaxPush=4), thorough=dict(Threads="{1, 2, 3}", MaxPush=7)),
                   "NoneLeft", "AllRun", ["notify_first", "clear_after", "one_only"]),
    "Startup": ("Startup", dict(quick=dict(Procs="{1, 2, 3}", MaxStarts=6, Overlap="FALSE"), thorough=dict(Procs="{1, 2, 3, 4}", MaxStarts=9, Overlap="FALSE")),
                "OneServer Reachable", "Works", ["no_probe", "no_unlink"]),
}
CONFIGS = set(PIZ) | set(SMALL)


def cfg_of(name, tier, bug=""):
    """-> (module, text of the configuration, properties)"""
    if name in SMALL:
        m, c, i, p, _ = SMALL[name]
        c = dict(c.get(tier) or c["quick"], Bug=f'"{bug}"')
        return m, "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in c.items()) + f"INVARIANTS {i}\nPROPERTIES {p}\nCHECK_DEADLOCK FALSE\n", (i + " " + p).split()
    confs, calls, mc, mt, steps, sus, lifes, reps, mr = PIZ[name].get(tier) or PIZ[name]["quick"]
    q = lambda t: "{" + ", ".join(f'"{x}"' for x in t.split()) + "}"
    n = lambda t: "{" + ", ".join(t.split()) + "}"
    return "MC", f"""SPECIFICATION Spec
CONSTANTS
  Unreachable <- NeverUnreachable
  Free <- NothingFree
  RedirectMatches <- HostOk
  POST_TIMEOUT <- SmallPost
  RETRY_SLEEP <- SmallSleep
  RETRIES <- SmallRetries
  TRANSIENT <- SmallTransient
  EVENT_TIMEOUT <- SmallCmd
  TIF_TIMEOUT <- SmallCmd
  Confs <- {confs}
  Calls = {q(calls)}
  MaxCalls = {mc}
  MaxTime = {mt}
  Steps = {n(steps)}
  MaxSuspend = {sus}
  Lifes = {n(lifes)}
  Reps = {q(reps)}
  MaxRep = {mr}
VIEW View
INVARIANTS {AUTH_I}
PROPERTIES {AUTH_P}
CHECK_DEADLOCK FALSE
""", (AUTH_I + " " + AUTH_P).split()


def one(name, tier, workers=None, timeout=None, bug=""):
    module, text, pr = cfg_of(name, tier, bug)
    d = os.path.join(tlcrun.ROOT, "build", "mc")
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, f"{name}-{tier}-{os.getpid()}.cfg")
    open(cfg, "w").write(text)
    q = tier == "quick"
    t0 = time.time()
    try: rc, out = tlcrun.run(module, cfg, workers=workers or (2 if q else 6), heap="4g" if q else "10g", timeout=timeout or (400 if q else 3000), par=True)
    except subprocess.TimeoutExpired: return dict(name=name, status="ok", out="timeout", distinct=0, generated=0, wall_s=round(time.time() - t0, 1), properties=pr, complete=False)
    finally: os.remove(cfg)
    g, d = tlcrun.stats(out)
    ok = "Model checking completed. No error has been found." in out
    return dict(name=name, status="ok" if ok else "bad", out=out, distinct=d, generated=g, wall_s=round(time.time() - t0, 1), properties=pr, complete=ok)


def run_all(names, tier): return [one(n, tier) for n in names if n in CONFIGS]


if __name__ == "__main__":
    if sys.argv[1:2] == ["bugs"]:
        for n in SMALL:
            for b in SMALL[n][4]:
                o = one(n, "quick", bug=b)["out"]
                print(n, b, "found" if "is violated" in o or "were violated" in o else "NOT FOUND", flush=True)
        sys.exit()
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    for n in [sys.argv[1]] if len(sys.argv) > 1 else sorted(CONFIGS):
        r = one(n, tier, workers=int(os.environ.get("W", "4")))
        if r["status"] != "ok": print(r["out"][-6000:])
        print(n, {k: r[k] for k in ("status", "complete", "distinct", "generated", "wall_s")}, flush=True)
