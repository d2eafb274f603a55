#!/usr/bin/env python3
"""tools/add.py ID quick thorough [concurrent] [secsq secst hang]: registers a check in checks.json"""
import json, sys
p = "/verif/checks/checks.json"
j = json.load(open(p))
a = sys.argv[1:]
c = {"cases": [int(a[1]), int(a[2])], "secs": [60, 600]}
if len(a) > 3 and a[3] == "concurrent":
    c["concurrent"] = True
if len(a) > 5:
    c["secs"] = [int(a[4]), int(a[5])]
if len(a) > 6:
    c["hang"] = int(a[6])
j["checks"][a[0]] = c
j["checks"] = dict(sorted(j["checks"].items()))
json.dump(j, open(p, "w"), indent=1)
