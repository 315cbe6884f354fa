"""C02: floating point arithmetic, comparisons and conversions are IEEE in every format."""
from ..frame import Check
from ..gen.prog import Straight
from ..oracle import diff_case


class C02(Check):
    prop = "C02"
    rule = ("a case is one generated program whose recorded reference trace is new; it mixes float, double, long double "
            "and every integer type in arithmetic, comparisons, conversions, assignments and calls")
    assumptions = ["gcc -O0 with -ffp-contract=off is the reference (SSE for float/double, x87 for long double); NaNs are "
                   "compared as NaN, everything else bit for bit",
                   "conversions of out-of-range floating values to integers are undefined and not generated"]

    def cases(self, tier):
        return ["p%d" % i for i in range(1300 if tier == "quick" else 10000)]

    def run(self, ctx, case, rng):
        s = Straight(rng, nfuncs=rng.choice([3, 5, 8]), stmts=rng.choice([6, 10, 14]), depth=rng.choice([2, 3, 4, 5]),
                     fp=rng.choice([0.35, 0.5, 0.7]), effects=rng.choice([0.0, 0.2, 0.35]), tick=rng.choice([0, 0.2]),
                     bitfields=False)
        flags = rng.choice([[], [], [], ["-fno-optimize-arithmetic"]])
        return diff_case(ctx.tool, [("t.c", s.build())], flags)


CHECK = C02()
