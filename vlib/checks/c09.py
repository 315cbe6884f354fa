"""C09: variadic functions receive their arguments."""
from ..frame import Check
from ..gen.varargs import VarCalls
from ..oracle import diff_case, MIXES


class C09(Check):
    prop = "C09"
    rule = ("a case is one program of two translation units with variadic functions reading random argument sequences (scalars, "
            "pointers, structs) in loops, straight-line code, helpers taking a va_list and copies of it, and calls of libc's "
            "formatting functions; it runs with both units, the first and the second compiled by wcc and the other by gcc or clang; "
            "distinct traces count")
    assumptions = ["gcc and clang implement the System V x86-64 variadic calling convention"]

    def cases(self, tier):
        return ["p%d" % i for i in range(500 if tier == "quick" else 5000)]

    def run(self, ctx, case, rng):
        clang = rng.random() < 0.3
        srcs = VarCalls(rng, nfn=rng.choice([2, 4, 6]), narrow=not clang, structs=rng.random() < 0.7).build()
        return diff_case(ctx.tool, srcs, mixes=MIXES(rng, clang))


CHECK = C09()
