#!/usr/bin/env python3
"""plant.py NAME PROPERTY: create seeded/NAME from a description on stdin (dev tool).

stdin: a Python literal dict(edits=[(file, old, new)..], needs=..., breaks=..., demo=python source)
"""
import ast, json, os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, pid = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
d = os.path.join(HERE, "seeded", name)
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="plant-")
try:
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, old, new in ns["edits"]:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{f}: pattern occurs {s.count(old)} times: {old!r}")
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
    # which removed lines are original?
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
    for f, old, new in ns["edits"]:
        orig = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{f}"], capture_output=True, text=True).stdout.splitlines()
        for line in diff.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:] not in orig:
                print("WARNING: not an original line:", line)
finally:
    shutil.rmtree(w)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(ns["demo"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in /repo after the build: 0 if the property holds\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=pid, needs=" ".join(ns["needs"].split()), what_it_breaks=" ".join(ns["breaks"].split())),
          open(d + "/meta.json", "w"), indent=1)
print(diff)
