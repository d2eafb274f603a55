#!/usr/bin/env python3
"""tools/plant.py FILE: makes planted bugs under /verif/seeded from a description: a Python file defining
BUGS = [(id, property, needs, breaks, [(file, old, new)...], demo_source, compile_line)]"""
import subprocess, sys, os, json, runpy
b = runpy.run_path(sys.argv[1])["BUGS"]
for (i, prop, needs, breaks, edits, demo, comp) in b:
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    for (f, old, new) in edits:
        p = "/repo/" + f
        t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nh=$(cd "$(dirname "$0")" && pwd)\nd=$(mktemp -d); trap \'rm -rf "$d"\' EXIT\n' + comp + "\n")
