"""C22: the container library next to plain models, under the sanitizers."""
import fcntl
import glob
import os
import re
import subprocess

from .. import build as B
from .. import run as R
from ..frame import Check
from ..oracle import Res
from .c17 import ENV, report

KINDS = ["strmap", "longmap", "strset", "longset", "set", "list", "graph"]


class C22(Check):
    prop = "C22"
    technique = "model-based runtime monitor and sanitizers on the container library"
    rule = ("a case is one random sequence of operations on one kind of container, linked from the compiler's own objects with "
            "AddressSanitizer and UndefinedBehaviorSanitizer; after each operation its observable content (lookups, iteration, length, "
            "equality, results of set algebra) is compared with a plain array model, and at the end the allocation count must be zero; "
            "distinct sequences count")
    assumptions = ["the containers are used through the functions and macros of wcc.h"]
    variants = ["asan"]

    def cases(self, tier):
        return ["%s-%d" % (k, i) for i in range(200 if tier == "quick" else 1500) for k in KINDS]

    def prepare(self, ctx):
        d = ctx.builds["asan"]
        ctx.exe = os.path.join(ctx.rt, "containers")
        with open(ctx.exe + ".lock", "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not os.path.exists(ctx.exe):
                objs = [o for o in glob.glob(os.path.join(d, "*.o")) if os.path.basename(o) != "main.o"]
                p = subprocess.run(["/usr/bin/gcc", "-fcommon", "-w", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                    "-I", d, "-o", ctx.exe, os.path.join(B.VERIF, "rt", "lib", "containers.c"), *objs, "-lm"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    raise B.HarnessError("the container harness doesn't build: " + p.stdout.decode()[-2000:])

    def run(self, ctx, case, rng):
        kind = case.split("-")[0]
        seed = rng.getrandbits(40)
        cmd = [ctx.exe, kind, str(seed), str(rng.choice([200, 1000, 3000]))]
        r = R.run(cmd, cwd=ctx.d, env=ENV, mem=0, cpu=60, wall=120)
        out = r.out.decode("latin1")
        files = {"command": " ".join(cmd), "output.txt": r.out + r.err}
        if r.timeout:
            r = R.run(cmd, cwd=ctx.d, env=ENV, mem=0, cpu=120, wall=300)
            if r.timeout:
                return Res("violation", "%s: no end" % kind, "the operations on a %s did not end in 120 s" % kind, files)
            out = r.out.decode("latin1")
        bad = report(r)
        if bad:
            return Res("violation", bad[0], bad[1], files)
        m = re.search(r"^FAIL (.*)", out, re.M)
        if m:
            return Res("violation", "%s: differs from the model" % kind, out[m.start():][:1500], files)
        s = re.search(r"^STATS (.*)", out, re.M)
        if r.rc != 0 or not s:
            return Res("violation", "%s: unexpected end" % kind, "status %s: %s %s" % (r.rc, out[-500:], r.err[-500:]), files)
        stats = {a: int(b) for a, b in (x.split("=") for x in s.group(1).split())}
        stats["sequences_" + kind] = 1
        return Res("ok", "", "", files, stats, key="%s %s" % (kind, seed), sample=" ".join(cmd[1:]) + ": " + s.group(1))

    def finish(self, stats, tier):
        if stats["model_comparisons"] < 100000 or stats["growths"] < 50 or stats["readded_keys"] < 1000:
            raise B.HarnessError("the container monitor observed too little: %s" % dict(stats))
        return {}


CHECK = C22()
