#!/usr/bin/env python3
"""Regenerates the "fixed" list of known-findings.json from /repo's fix: commits; argument: PROP=commitprefix ..."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "known-findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
have = {}
for x in d["fixed"]:
    a = x.split()
    have[a[2][:7]] = a[1].split("=")[1]
for a in sys.argv[1:]:
    k, v = a.split("=")
    have[v[:7]] = k
d["fixed"] = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"]).decode().splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        if h[:7] not in have:
            print("no property for", h[:7], s)
            continue
        d["fixed"].append("fixed: property=%s %s %s" % (have[h[:7]], h[:10], s[5:]))
json.dump(d, open(p, "w"), indent=1)
