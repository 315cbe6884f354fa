"""C15: macro expansion against two independent preprocessors."""
import re

from .. import run as R
from ..frame import Check
from ..gen.macros import Macros, tokens
from ..oracle import Res

REFS = [["/usr/bin/gcc", "-std=gnu89", "-w", "-E", "-P", "-x", "c"], ["clang", "-std=gnu89", "-w", "-E", "-P", "-x", "c"]]


def ref_tokens(t, src, extra=(), refs=REFS):
    """token spellings on which the reference preprocessors agree, or (None, why)"""
    got = None
    for cmd in refs:
        r = R.run(cmd + list(extra) + [src], cwd=t.d)
        if r.rc != 0 or b"error:" in r.err:
            return None, r.err.decode("latin1")[:300]
        v = [x[0] for x in tokens(r.out.decode("latin1"))]
        if got is None:
            got = v
        elif got != v:
            return None, "disagree"
    return got, None


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


class C15(Check):
    prop = "C15"
    technique = "differential monitoring of preprocessed token sequences against two reference preprocessors"
    rule = ("a case is one generated set of macro definitions and uses; the token sequence wcc -E writes must be the one on which gcc and "
            "clang agree (cases on which they reject or disagree are unspecified and not counted as held); distinct token sequences count")
    assumptions = ["where gcc and clang agree on an expansion they implement the standard"]
    max_invalid = 0.2

    def cases(self, tier):
        return ["m%d" % i for i in range(3000 if tier == "quick" else 40000)]

    def run(self, ctx, case, rng):
        t = ctx.tool
        empties = rng.random() < 0.5
        src = Macros(rng, empties=empties, nmac=rng.choice([3, 6, 10, 16]), uses=rng.choice([6, 12, 20]), paste=rng.choice([0, 0.2, 0.4]),
                     cyclic=rng.random() < 0.3, punct=rng.choice([0.1, 0.3, 0.5]), multiline=rng.choice([0, 0.3])).build()
        p = t.path("t.c")
        with open(p, "w") as f:
            f.write(src)
        want, why = ref_tokens(t, p)
        files = {"t.c": src}
        if want is None:
            return Res("invalid" if why != "disagree" else "ok", why, why, files, {"references_" + ("disagree" if why == "disagree" else "reject"): 1})
        r = R.run([t.wcc, "-E", p, "-o", t.path("t.i")], cwd=t.d)
        if r.timeout:
            return Res("inconclusive", "timeout", "wcc -E timed out", files)
        if r.rc != 0:
            return Res("violation", "valid macros rejected", "status %s: %s" % (r.rc, (r.out + r.err).decode("latin1")[:400]), files)
        with open(t.path("t.i"), encoding="latin1") as f:
            text = f.read()
        got = [x[0] for x in tokens(text)]
        empties = empties or re.search(r"[(,](\s|/\*.*?\*/)*[,)]", src)
        # whether the spaces around something empty count in a stringized expansion isn't specified;
        # a # operator's own leading space in an expansion that is stringized again isn't judged either
        loose = (lambda x: x.replace(" ", "")) if empties else (lambda x: x.replace(' \\"', '\\"').replace(" L\\", "L\\"))
        if got != want:
            got, want = [[loose(x) if x[-1] == '"' else x for x in v] for v in (got, want)]
        if got != want:
            i = first_diff(got, want)
            files["wcc.i"] = text
            return Res("violation", "expansion differs", "token %d: wcc gives %s, the references give %s" % (
                i, " ".join(got[max(0, i - 6):i + 5]), " ".join(want[max(0, i - 6):i + 5])), files)
        return Res("ok", "", "", files, {"tokens_compared": len(got), "macro_definitions": src.count("define ")}, key=hash(tuple(got)),
                   sample="%d tokens, e.g. %s" % (len(got), " ".join(got[:14])))


CHECK = C15()
