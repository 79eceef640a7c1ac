#!/usr/bin/env python3
"""Writes plan.json: how many cases each check runs per build and tier."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = dict(C01=16000, C02=18000, C03=16000, C04=18000, C05=3200, C06=32000, C07=12000, C08=7000, C09=4500, C10=3600, C11=12000, C12=2600, C13=24000, C14=9000, C15=14000, C16=7000, C18=16000)
SHARE = dict(kd=.45, ks=.22, fd=.22, fs=.11)
cases = {}
for p, n in Q.items():
    q = {c: int(n * s) for c, s in SHARE.items()}
    t = {c: int(20 * n * s) for c, s in SHARE.items()}
    t["cd"] = 3 * n
    if p in ("C01", "C02", "C03", "C04", "C07", "C08", "C09", "C12", "C15", "C16"):
        for c in ("w2", "mk"):
            q[c], t[c] = int(.05 * n), int(n)
    if p == "C08":
        q["po+valgrind"] = 32
        t["po+valgrind"], t["ps+valgrind"] = 1600, 800
    elif p in ("C01", "C02", "C03", "C06", "C07"):
        t["po+valgrind"] = 160
    cases[p] = dict(quick=q, thorough=t)
cases["C17"] = dict(quick=dict(py=1200), thorough=dict(py=40000))
json.dump(dict(deadline=dict(quick=300, thorough=3000), cases=cases), open(os.path.join(V, "plan.json"), "w"), indent=1)
