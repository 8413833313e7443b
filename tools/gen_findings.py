#!/usr/bin/env python3
"""known_findings.txt: recorded findings + one line per fix commit in /repo."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(os.path.join(V, "tools", "findings.json")))
out = []
for f in d["findings"]:
    out.append("finding: property=%s key=%s %s" % (f["property"], f["key"], f["text"]))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "e83ab93..HEAD"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in d["fixed"]:
        sys.exit("no entry for fix: " + s)
    p, what = d["fixed"][s]
    out.append("fixed: property=%s %s %s" % (p, h, what or s))
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
