"""Writes MANIFEST.json."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = props.__file__.rsplit("/", 2)[0]
SKIP = set(sys.argv[1:])
T = "TLA+ specification checked with TLC; traces recorded from the real server (virtual time) validated against it by TLC"
NOTE = ("The specification's behaviours satisfy the property (model checked on small constants where a configuration is named in the evidence); every execution of the real server that is run "
        "is checked by TLC to be a behaviour of the specification. Assumes: shim's virtual time and quiescence detection, recorder, TLC. Code is compared on the seeded scenarios run, not on all.")
SPECIAL = {}
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "pizauth_verif", "enable": "cargo rustc --bin pizauth -- --cfg pizauth_verif (see build.sh)", "source_commits": ["28c6ff2", "cd5877b"]},
     "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough", "technique": SPECIAL.get(p, (T, NOTE))[0], "level": "model_checking", "level_note": SPECIAL.get(p, (T, NOTE))[1]}
                for p in props.P if p not in SKIP],
     "not_applicable": [
         {"property": "C27", "reason": "unpredictability is a statement about the probability distribution of generated values; a TLA+ state machine and recorded traces cannot decide it (freshness is decided under C04)"}] + [{"property": p, "reason": "check under construction"} for p in sorted(SKIP)]}
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() for c in m["hooks"]["source_commits"]]
if all(full): m["hooks"]["source_commits"] = full
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
