"""C08: calls between functions of this and of another ABI-conforming compiler."""
from ..frame import Check
from ..gen.calls import Calls
from ..oracle import diff_case, MIXES


class C08(Check):
    prop = "C08"
    rule = ("a case is one program of two translation units whose functions call each other with random parameter and result "
            "types; every value received and returned is recorded; it runs with both units, the first and the second compiled by wcc "
            "and the other by gcc -O0, gcc -O2 or clang; distinct traces count")
    assumptions = ["gcc and clang implement the System V x86-64 calling convention"]

    def cases(self, tier):
        return ["p%d" % i for i in range(500 if tier == "quick" else 5000)]

    def run(self, ctx, case, rng):
        clang = rng.random() < 0.3
        srcs = Calls(rng, nfn=rng.choice([3, 5, 8]), narrow=not clang, pure_scalar=rng.random() < 0.15).build()
        return diff_case(ctx.tool, srcs, mixes=MIXES(rng, clang))


CHECK = C08()
