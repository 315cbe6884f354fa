"""C11: values keep their identity under register pressure; allocation and optimisation switches change nothing."""
from ..frame import Check
from ..gen.flow import Flow
from ..gen.pressure import Pressure
from ..oracle import diff_case

SWITCHES = ["-fno-live-range-coalescing", "-fspill-furthest-liveness-end", "-fno-dont-spill-short-live-ranges",
            "-fno-optimize-arithmetic", "-fno-vreg-renumbering", "-fPIC", "-g"]


class C11(Check):
    prop = "C11"
    rule = ("a case is one generated program with up to 40 values live at once, compiled under three switch "
            "combinations, each of which must reproduce the reference trace; distinct traces count")
    assumptions = ["gcc -O0 is the reference; a mismatch counts only if clang, gcc -O2 and the sanitizers confirm the "
                   "reference trace"]

    def cases(self, tier):
        return ["p%d" % i for i in range(700 if tier == "quick" else 6000)]

    def run(self, ctx, case, rng):
        if rng.random() < 0.5:
            f = Flow(rng, nfuncs=rng.choice([2, 4]), size=rng.choice([15, 30]), depth=rng.choice([3, 4, 5]),
                     nest=3, nvars=rng.choice([10, 14, 20]), maxparams=rng.choice([4, 8]), fp=rng.choice([0, 0, 0.3, 0.6]))
        else:
            f = Pressure(rng, nvars=rng.choice([8, 16, 24, 40]), stmts=rng.choice([10, 25]), fp=rng.choice([0, 0, 0.3, 0.7, 1]),
                         depth=rng.choice([3, 4, 6]))
        sets = [[]]
        for _ in range(2):
            sets.append(sorted(rng.sample(SWITCHES, rng.choice([1, 1, 2, 3, 5]))))
        return diff_case(ctx.tool, [("t.c", f.build())], variants=sets)


CHECK = C11()
