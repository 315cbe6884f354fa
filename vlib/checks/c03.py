"""C03: constants against the same expression at run time."""
from ..frame import Check
from ..gen.addrs import Addrs
from ..gen.consts import Consts
from ..oracle import diff_case


class C03(Check):
    prop = "C03"
    rule = ("a case is one generated program; each of its expressions over literals, enumerators and sizeof appears where a constant is required (static "
            "initializers, array sizes, case labels, enumerators, bit-field widths, address constants) and, over volatile variables of the same types and "
            "values, at run time; the recorded values, sizes and signednesses of both must be those of the reference, which makes them equal; "
            "a* cases are address constants (strings, arrays, members, functions, integer pointers plus and minus constants) in static initializers")
    assumptions = ["gcc -std=gnu89 -fwrapv is the reference for values and types"]
    max_invalid = 0.1

    def cases(self, tier):
        q = tier == "quick"
        return ["k%d" % i for i in range(1300 if q else 15000)] + ["a%d" % i for i in range(300 if q else 4000)]

    def run(self, ctx, case, rng):
        if case[0] == "a":
            return diff_case(ctx.tool, [("t.c", Addrs(rng).build())], rng.choice([[], [], ["-fPIC"]]))
        c = Consts(rng, n=rng.choice([6, 12, 20]), depth=rng.choice([3, 4, 5]), fp=rng.choice([0, 0, 0.15, 0.4]), addresses=rng.random() < 0.7)
        return diff_case(ctx.tool, [("t.c", c.build())], rng.choice([[], [], ["-fPIC"], ["-fno-optimize-arithmetic"]]))


CHECK = C03()
