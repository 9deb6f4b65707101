"""explain.py TRACE.json [context] [max states]: where and in which specification states a trace gets stuck."""
import sys, json, re, os, tempfile
import tlcrun


def sh(e):
    d = dict(e); k = d.pop("e")
    if "ast" in d: d["ast"] = "%d nodes" % len(d["ast"])
    if "p" in d: d["p"] = [x for x in d["p"] if x[0] in ("code", "refresh_token", "client_id", "scope")]
    if k == "Ret" and "p" in d["r"]: d["r"] = {k: d["r"][k] for k in "kn"}
    if "u" in d and isinstance(d["u"], dict): d["u"] = d["u"].get("n")
    return k + " " + json.dumps(d)[:260]


def stuck(t, h):
    f = tempfile.mktemp(dir="/dev/shm")
    with open(f, "w") as o: o.write(json.dumps({"uris": t["uris"], "relax": []}) + "\n" + tlcrun.line({"ev": t["ev"][:h + 1]}) + "\n")
    try: rc, out = tlcrun.run("Explain", env={"TRACES": f, "AT": str(h)})
    finally: os.unlink(f)
    ss = re.findall(r'<<"STUCK", "(.*?)">>\n', out)
    ss = [json.loads(x.replace('\\"', '"').replace("\\\\", "\\")) for x in ss]
    return ss, out


def compact(s):
    s = dict(s)
    s["nonces"] = "..%d" % len(s["nonces"])
    for k in ("auths", "refs"):
        for t in s[k]: t.pop("sec", None)
    return {k: v for k, v in s.items() if v not in ([], {}, False, 0)}


if __name__ == "__main__":
    t = json.load(open(sys.argv[1]))
    if "trace" in t: t = t["trace"]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 30
    h = tlcrun.validate([t])[0][0]
    for i in range(max(0, h - n), min(len(t["ev"]), h + 4)): print(">>" if i == h else "  ", i, sh(t["ev"][i]))
    ss, out = stuck(t, h)
    print(len(ss), "states")
    if not ss: print(out[-2000:])
    for x in ss[-int(sys.argv[3] if len(sys.argv) > 3 else 1):]: print(json.dumps(compact(x))[:5000]); print()
