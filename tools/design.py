#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, propdefs.py, the evidence of the last run (rule texts), known-findings.txt and caught.txt."""
import json, os, re, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
tech = {c["property"]: c for c in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
kf = open(V + "/known-findings.txt").read().splitlines()
caught, quiet, seeds = {}, {}, {}
import glob
for f in sorted(glob.glob(T + "/mutants/*.py")):
    if f.endswith("run.py"): continue
    ns = {}; exec(open(f).read(), ns)
    for m in ns.get("M", []):
        for i in m["p"].split():
            (quiet if m["name"].startswith("Q-") else caught).setdefault(i, []).append(m["name"])
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
o = [open(T + "/design_head.md").read()]
o.append("Each was shown by the rule's path and confirmed in the code; the repairs are `fix:` commits in /repo and suppress nothing.\n\n")
for l in kf:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o.append("* **%s** fixed in `%s`: %s\n" % m.groups())
    m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l)
    if m: o.append("* **%s** recorded, not repaired (`%s`): %s\n" % m.groups())
o.append("\n## 4. Not applicable\n\n")
for p in props:
    if p["id"] in na: o.append("* **%s %s** — %s\n" % (p["id"], p["title"], na[p["id"]]))
o.append(open(T + "/design_mid.md").read() if os.path.exists(T + "/design_mid.md") else "")
o.append("\n## 6. The properties and how each is decided\n")
for p in props:
    if p["id"] in na: continue
    i = p["id"]
    o.append("\n### %s — %s\n\n%s\n\n" % (i, p["title"], p["statement"]))
    c = tech[i]
    o.append("*Decided by* %s. %s\n\n" % (c["technique"], c["level_note"].split(" Sound for the paths")[0]))
    e = json.load(open(V + "/evidence/%s.json" % i))["coverage"]
    for k, r in e["rules"].items():
        o.append("* `%s`: %s\n" % (k, r["rule"]))
    if i in caught:
        o.append("\n*Edits it reports* (`tools/mutants`): %s.\n" % ", ".join(caught[i]))
    if i in quiet:
        o.append("\n*Refactorings it is quiet on:* %s.\n" % ", ".join(q[2:] for q in quiet[i]))
    for a, b in seeds.get(i, []):
        o.append("\n*Seeded bug* `%s`, caught: %s\n" % (a, b))
open(V + "/DESIGN.md", "w").write("".join(o))
