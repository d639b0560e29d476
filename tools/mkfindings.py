#!/usr/bin/env python3
# Rewrites /verif/known-findings.txt from tools/fixed.json (fix: commits of /repo) and tools/known.txt.
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
what = json.load(open(os.path.join(here, "fixed.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.strip().split("\n")
out = []
kn = os.path.join(here, "known.txt")
if os.path.exists(kn):
    out += [l.rstrip("\n") for l in open(kn) if l.strip()]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    m = [v for k, v in what.items() if k in s]
    if len(m) != 1:
        sys.exit("no entry for " + l)
    out.append("fixed: property=%s %s %s" % (m[0][0], h, m[0][1]))
open(os.path.join(os.path.dirname(here), "known-findings.txt"), "w").write("\n".join(out) + "\n")
