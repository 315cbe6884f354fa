#!/usr/bin/env python3
"""Development aid: hunt.py N seed k=v... : runs N small Straight programs, reduces the smallest failures."""
import os, sys, subprocess, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import frame
from vlib.gen.prog import Straight
from vlib.oracle import diff_case

n, seed, nred = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
kw = {}
for a in sys.argv[4:]:
    k, v = a.split("=")
    kw[k] = eval(v)


CLS = Straight
if kw.pop("flow", 0):
    from vlib.gen.flow import Flow as CLS
flags = kw.pop('flags', [])


class H(frame.Check):
    prop = "HUNT"
    max_invalid = 1

    def cases(self, tier):
        return list(range(n))

    def run(self, ctx, case, rng):
        return diff_case(ctx.tool, [("t.c", CLS(rng, **kw).build())], flags)


frame.main(H(), "quick", seed)
base = "/verif/evidence/replay/HUNT"
if os.path.isdir(base):
    fs = sorted((os.path.getsize(os.path.join(base, d, "t.c")), d) for d in os.listdir(base))
    print(len(fs), "failures")
    for _, d in fs[:nred]:
        print("=====", d)
        subprocess.run(["timeout", "240", sys.executable, os.path.join(os.path.dirname(__file__), "reduce.py"), os.path.join(base, d, "t.c")])
