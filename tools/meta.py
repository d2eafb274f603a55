#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the entries below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}), hook_needed=None),
                  _note=level_note, _tech=technique))


exec(open(V + "/tools/props.py").read())
P.sort(key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
cfg = json.load(open(V + "/checks/checks.json"))["checks"]
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [], "not_applicable": [],
       "notes": "No hooks: nothing in /repo is instrumented. Checks are built from /repo's sources by /verif/CMakeLists.txt with clang, ASAN and UBSAN."}
for p in P:
    if p["id"] in cfg:
        man["checks"].append({"property": p["id"], "quick_cmd": "./run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./run.py " + p["id"],
                              "technique": p["_tech"], "level": "exploration", "level_note": p["_note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
