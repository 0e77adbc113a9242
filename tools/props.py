#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below. Run after editing; check.py does not read it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "coerce/src/actor/"
R = "coerce/src/remote/"
P = "coerce/src/persistent/"
S = "coerce/src/sharding/"
G = "coerce/src/singleton/"
PROPS, NA = [], []


def p(id, title, statement, over, text, why, files, mech, tech, note, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      tech=tech, note=note, state=state))


def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech, None, None)
    NA.append((id, reason))


import sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propdefs import fill
fill(p, na, dict(A=A, R=R, P=P, S=S, G=G))
TRUST = ("Sound for the paths of the compiler's MIR of this crate under the models of std/tokio collections and channels in "
         "lib/models.py; external crates and user handlers are treated as opaque. Not covered: real time, network, other crates.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in PROPS:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                            "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]],
                                        "hook_needed": None}}) + "\n")
nas = {a for a, _ in NA}
json.dump({"version": 1, "setup_cmd": "python3 lib/extract.py",
           "checks": [{"property": x["id"], "quick_cmd": "python3 check.py %s quick" % x["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % x["id"], "technique": x["tech"], "level": "other",
                       "level_note": x["note"] + " " + TRUST} for x in PROPS if x["id"] not in nas],
           "not_applicable": [{"property": a, "reason": b} for a, b in NA],
           "notes": "No hooks in /repo. Fix commits are listed in known-findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(PROPS) - len(NA), "claimed")
