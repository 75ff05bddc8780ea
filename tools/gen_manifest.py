#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: python3 tools/gen_manifest.py.
A property is claimed when the checker registers it (checker -list)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
listed = subprocess.run(["bin/checker", "-list"], capture_output=True, text=True).stdout.splitlines()
claimed = dict(l.split("\t", 1) for l in listed if l)
props = [json.loads(l) for l in open("properties.jsonl")]
RANGES = {}
NA = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": f"bash /verif/run.sh {i} quick",
            "thorough_cmd": f"bash /verif/run.sh {i} thorough",
            "technique": "path-sensitive typestate / guard / effect rules over the inlined SSA of the type-checked source",
            "level": "other",
            "level_note": claimed[i] + ". Every rule is decided for all paths of all entry points in the current source; loops and schedules are abstracted (other goroutines may change anything protected by a lock between its critical sections). Trusted: go/packages, go/ssa, the rule set's reading of the property, and the documented behaviour of external packages.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash /verif/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: checker/ loads /repo's current working tree, builds SSA and decides the rules of each property. No hooks in /repo."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
