"""C10: compiled functions keep the machine-state contract of the platform."""
import os

from ..frame import Check
from ..build import HarnessError
from ..gen.calls import Calls
from ..gen.varargs import VarCalls
from ..gen.flow import Flow
from ..gen.pressure import Pressure
from ..gen.prog import Straight
from ..gen.access import Access
from ..instrument import instrument
from ..oracle import diff_case, MIXES


class C10(Check):
    prop = "C10"
    technique = "machine-state runtime monitor at every function entry, return and call"
    rule = ("a case is one generated program whose assembly is instrumented by the check: at every function entry callee-saved "
            "registers, stack pointer and control words go to a shadow stack; at every return they are compared; at every call stack "
            "alignment, x87 stack and direction flag are checked; everything a callee or caller may destroy is overwritten; the "
            "recorded trace must also be the reference's; distinct traces count")
    assumptions = ["the compiler's assembly has a non-local label for each function in the text section and uses call and ret"]

    def cases(self, tier):
        return ["p%d" % i for i in range(700 if tier == "quick" else 7000)]

    def prepare(self, ctx):
        ctx.tool.extra = [os.path.join(ctx.tool.rt, "state.o"), os.path.join(ctx.tool.rt, "statec.o")]

        def post(s):
            s, n = instrument(s)
            return s
        ctx.tool.post_asm = post

    def run(self, ctx, case, rng):
        k = rng.random()
        flags = []
        mixes = None
        if k < 0.2:
            v = VarCalls(rng, nfn=rng.choice([2, 4]), structs=rng.random() < 0.6)
            v.al = True
            srcs = v.build()
            mixes = MIXES(rng, False)
        elif k < 0.5:
            srcs = Calls(rng, nfn=rng.choice([3, 5, 8]), pure_scalar=rng.random() < 0.15).build()
            mixes = MIXES(rng, False)
        elif k < 0.6:
            srcs = [("t.c", Pressure(rng, nvars=rng.choice([8, 16, 24]), stmts=rng.choice([10, 25]), fp=rng.choice([0, 0.3, 0.7, 1]),
                                     depth=rng.choice([3, 4])).build())]
        elif k < 0.75:
            srcs = [("t.c", Straight(rng, nfuncs=4, stmts=8, depth=rng.choice([2, 3, 4]), fp=rng.choice([0, 0.5, 0.7]), effects=0.2,
                                     tick=0.3, bitfields=False).build())]
        elif k < 0.9:
            srcs = [("t.c", Flow(rng, nfuncs=rng.choice([2, 4]), size=rng.choice([8, 20]), depth=3, nest=3, effects=0.3, tick=0.3,
                                 fp=rng.choice([0, 0.3]), maxparams=rng.choice([3, 9])).build())]
        else:
            srcs = [("t.c", Access(rng, nstmt=rng.choice([8, 16])).build())]
        if rng.random() < 0.3:
            flags = rng.choice([["-fPIC"], ["-fno-live-range-coalescing"], ["-g"], ["-fspill-furthest-liveness-end"], ["-fno-vreg-renumbering"]])
        return diff_case(ctx.tool, srcs, flags, mixes=mixes)

    def finish(self, stats, tier):
        if stats["enters"] < 10 * stats["runs"] or stats["calls"] < 10 * stats["runs"] or stats["leaves"] < stats["runs"]:
            raise HarnessError("the machine-state monitor observed too little: %s" % dict(stats))
        return {k + "_checked": stats[k] for k in ("enters", "leaves", "calls", "returns")}


CHECK = C10()
