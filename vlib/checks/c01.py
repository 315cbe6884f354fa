"""C01: integer expressions compute what the abstract machine computes."""
from ..frame import Check
from ..gen.prog import Straight
from ..oracle import diff_case


class C01(Check):
    prop = "C01"
    rule = ("a case is one generated program whose recorded reference trace is new; each program evaluates dozens of "
            "integer expressions over known boundary values held in every kind of object")
    assumptions = ["gcc -O0 is the reference; a mismatch counts only if clang, gcc -O2 and the sanitizers confirm the "
                   "reference trace"]

    def cases(self, tier):
        return ["p%d" % i for i in range(1500 if tier == "quick" else 12000)]

    def run(self, ctx, case, rng):
        s = Straight(rng, nfuncs=rng.choice([3, 5, 8]), stmts=rng.choice([6, 10, 16]), depth=rng.choice([2, 3, 4, 5, 6]),
                     effects=rng.choice([0.0, 0.2, 0.35]), tick=rng.choice([0, 0.2]),
                     bitfields=False)
        src = s.build()
        flags = rng.choice([[], [], [], ["-fno-optimize-arithmetic"]])
        return diff_case(ctx.tool, [("t.c", src)], flags)


CHECK = C01()
