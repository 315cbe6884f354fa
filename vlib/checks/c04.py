"""C04: control flow executes what the abstract machine executes, in order, each side effect once."""
from ..frame import Check
from ..gen.flow import Flow
from ..oracle import diff_case


class C04(Check):
    prop = "C04"
    rule = ("a case is one generated program of nested if/switch/loops/goto/return and sequenced side effects whose "
            "reference trace of executed program points and values is new")
    assumptions = ["gcc -O0 is the reference; a mismatch counts only if clang, gcc -O2 and the sanitizers confirm the "
                   "reference trace"]

    def cases(self, tier):
        return ["p%d" % i for i in range(1600 if tier == "quick" else 14000)]

    def run(self, ctx, case, rng):
        f = Flow(rng, nfuncs=rng.choice([2, 3, 5, 7]), size=rng.choice([8, 14, 22, 35]), depth=rng.choice([2, 3, 4]),
                 nest=rng.choice([2, 3, 4, 5]), effects=rng.choice([0.1, 0.3, 0.5]), tick=rng.choice([0.1, 0.4]),
                 gotos=rng.random() < 0.8, fp=rng.choice([0, 0, 0.25]), maxparams=rng.choice([3, 6]))
        return diff_case(ctx.tool, [("t.c", f.build())])

    def finish(self, stats, tier):
        return {"events_compared": stats["events"]}


CHECK = C04()
