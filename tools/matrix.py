#!/usr/bin/env python3
"""prints DESIGN.md's table of the seeded bugs from seeded/*/meta.json and a log of 'id property CAUGHT|MISSED ...' lines"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    w = l.split(None, 3)
    if len(w) >= 3 and w[2] in ("CAUGHT", "MISSED"): res.setdefault(w[0], {})[w[1]] = (w[2], w[3].split(" [")[0].strip() if len(w) > 3 else "")
print("| bug | needs | caught by (first monitor) |\n|---|---|---|")
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    c = ", ".join("%s (%s)" % (p, k) for p, (r, k) in sorted(res.get(i, {}).items()) if r == "CAUGHT") or "missed"
    n = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
    print("| %s | %s | %s |" % (i, n[:140].replace("|", "/").replace("\n", " "), c))
