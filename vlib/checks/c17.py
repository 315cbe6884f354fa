"""C17: the compiler itself, instrumented with sanitizers, over valid, damaged and hostile sources."""
import os
import hashlib
import re

from .. import build as B
from .. import run as R
from ..frame import Check
from ..gen import damage
from ..gen.access import Access
from ..gen.calls import Calls
from ..gen.flow import Flow
from ..gen.pressure import Pressure
from ..gen.prog import Straight
from ..gen.varargs import VarCalls
from ..oracle import Res

CORPUS = os.path.join(B.VERIF, "corpus")
FLAGS = ["-fno-live-range-coalescing", "-fspill-furthest-liveness-end", "-fno-dont-spill-short-live-ranges",
         "-fno-optimize-arithmetic", "-fno-vreg-renumbering", "-fPIC", "-g", "--trigraphs"]
ENV = R.clean_env(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:exitcode=99:abort_on_error=0:allocator_may_return_null=1",
                  UBSAN_OPTIONS="print_stacktrace=1")
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\w+) ")
OWN = re.compile(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/(\w+\.c):\d+")
ERRLINE = re.compile(r"^(?:.*:-?\d+: error: |error: )", re.M)
INTERNAL = re.compile(r"internal error|panic|No rules matched|Did not match any rules", re.I)


def generated(rng):
    k = rng.randrange(6)
    if k == 0:
        return Straight(rng, nfuncs=2, stmts=6, depth=3, fp=rng.choice([0, 0.4])).build()
    if k == 1:
        return Flow(rng, nfuncs=2, size=12, depth=3, nest=3, nvars=rng.choice([5, 14])).build()
    if k == 2:
        return Access(rng, nstmt=8).build()
    if k == 3:
        return Pressure(rng, nvars=rng.choice([8, 24]), stmts=8, fp=rng.choice([0, 0.4]), depth=3).build()
    if k == 4:
        return Calls(rng, nfn=3, narrow=True, pure_scalar=False).build()[0][1]
    return VarCalls(rng).build()[0][1]


def corpus(rng):
    names = sorted(n for n in os.listdir(CORPUS) if n.endswith(".c"))
    with open(os.path.join(CORPUS, rng.choice(names))) as f:
        return f.read()


def report(r):
    """(signature, excerpt) of a sanitizer report or crash, or None"""
    e = r.err.decode("latin1")
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)|runtime error: ([^\n]*)", e)
    if m:
        what = m.group(1) or re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(2))
        own = OWN.search(e[m.start():])
        return "sanitizer: %s in %s" % (what[:80], own.group(1) if own else "?"), e[max(0, m.start() - 200):][:1800]
    if r.rc is not None and (r.rc < 0 or r.rc == 99):
        return "crash: status %d" % r.rc, e[-600:]
    return None


class C17(Check):
    prop = "C17"
    technique = "AddressSanitizer and UndefinedBehaviorSanitizer on the compiler, with exit-status and leak monitors"
    rule = ("a case compiles one generated valid source (must succeed silently, without leaking) or one damaged or hostile source "
            "(must end with success or a diagnostic) with the sanitized compiler; distinct outcomes (source hash) count")
    assumptions = ["the sanitizers of gcc detect the invalid accesses they document",
                   "a compilation taking longer than the limit twice is reported as inconclusive, not as a hang, unless a small input"]
    variants = ["asan"]

    def cases(self, tier):
        n = 1 if tier == "quick" else 12
        return (["v%d" % i for i in range(400 * n)] + ["m%d" % i for i in range(3200 * n)] + ["h%d" % i for i in range(400 * n)])

    def run(self, ctx, case, rng):
        t = ctx.tool_for("asan")
        kind = case[0]
        if kind == "v":
            src = generated(rng) if rng.random() < 0.9 else corpus(rng)
        elif kind == "m":
            src = damage.mutate(rng, corpus(rng) if rng.random() < 0.6 else generated(rng),
                                corpus(rng) if rng.random() < 0.5 else generated(rng))
        else:
            src = rng.choice(damage.HOSTILE)(rng, rng.choice([1, 2, 5, 20, 60, 150, 300, 1100]))
            if rng.random() < 0.3:
                src += corpus(rng)
        flags = rng.sample(FLAGS, rng.choice([0, 0, 1, 2, 4]))
        mode = rng.choice(["-S", "-S", "-S", "-E"]) if kind != "v" else "-S"
        if kind == "v" and "--trigraphs" not in flags:
            flags.append("--trigraphs")
        p = t.path("t.c")
        with open(p, "w", encoding="latin1", newline="") as f:
            f.write(src)
        cmd = [t.wcc, *flags, "--fail-on-leaked-memory", mode, p, "-o", t.path("t.out")]
        r = R.run(cmd, cwd=t.d, env=ENV, mem=0, cpu=60, wall=150)
        files = {"t.c": src.encode("latin1"), "command": " ".join(cmd[1:])}
        stats = {"compilations": 1}
        if r.timeout or r.rc == -9:
            r = R.run(cmd, cwd=t.d, env=ENV, mem=0, cpu=120, wall=300)
            if r.timeout or r.rc == -9:
                return Res("violation" if kind == "m" and len(src) < 20000 else "inconclusive", "hang",
                           "no end after 120 s of processor time on %d bytes" % len(src), files, stats)
        bad = report(r)
        err = r.err.decode("latin1")
        if bad:
            return Res("violation", bad[0], bad[1], files, stats)
        out = r.out.decode("latin1")
        if r.rc == 0:
            stats["accepted"] = 1
            if INTERNAL.search(err + out):
                return Res("violation", "internal error but success", err[:600], files, stats)
        else:
            stats["rejected"] = 1
            if "Memory has been leaked" in err + out:
                return Res("violation", "leak", (err + out)[-800:], files, stats)
            if kind == "v":
                return Res("violation", "valid source rejected", err[:600], files, stats)
            if INTERNAL.search(err + out):
                stats["internal_errors_on_damaged"] = 1
            elif not ERRLINE.search(err):
                return Res("violation", "failure without diagnostic", (err + out)[:600], files, stats)
        return Res("ok", "", "", files, stats, key=hashlib.md5(src.encode("latin1")).hexdigest(), sample="%s, %d bytes -> %s" % (
            mode, len(src), "accepted" if r.rc == 0 else (err.strip().split("\n")[-1][:100])))


CHECK = C17()
