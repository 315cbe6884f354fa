"""C13: scopes and declarators against the reference compiler."""
from ..frame import Check
from ..gen.decls import Decls
from ..gen.names import Names
from ..oracle import diff_case


class C13(Check):
    prop = "C13"
    rule = ("a case is one generated program of either nested scopes that reuse a few identifiers as objects, typedefs, enumerators, tags, members, labels, "
            "parameters and functions, recording a value only the intended declaration has at every use; or of objects of arbitrarily nested types, declared in "
            "all spellings, whose parts are recorded through every derivation with the sizes on the way; the events must be those of the reference")
    assumptions = ["gcc -std=gnu89 is the reference for scopes and declarators"]
    max_invalid = 0.05

    def cases(self, tier):
        n = 1 if tier == "quick" else 10
        return ["d%d" % i for i in range(800 * n)] + ["s%d" % i for i in range(800 * n)]

    def run(self, ctx, case, rng):
        if case[0] == "d":
            src = Decls(rng, n=rng.choice([2, 4, 6]), depth=rng.choice([3, 4, 5]), typedefs=rng.choice([0, 0.15, 0.4])).build()
        else:
            src = Names(rng, n=rng.choice([2, 4, 6]), depth=rng.choice([2, 3, 4])).build()
        return diff_case(ctx.tool, [("t.c", src)])


CHECK = C13()
