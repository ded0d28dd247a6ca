#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "stacks/src/"
TECH = "static analysis: abstract interpretation of MIR"
P = []
NA = []


def p(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None):
    a = {"files": [S + f if not f.startswith("stacks_derive") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": x, "meaning": x, "where": a["files"][0]} if isinstance(x, str) else x for x in state]
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    p(id, title, statement, over, qtext, why, files, mech, None)
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(R, "tools", "proptext.py")).read())

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for d, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 sa/build.py",
     "checks": [{"property": d["id"], "quick_cmd": "./check %s" % d["id"], "thorough_cmd": "./check %s --thorough" % d["id"],
                 "technique": TECH if isinstance(n, str) else n[0], "level": "other", "level_note": n if isinstance(n, str) else n[1]} for d, n in P if n is not None],
     "not_applicable": NA}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
