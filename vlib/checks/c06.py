"""C06: reads and writes through any access path touch exactly the designated object."""
from ..frame import Check
from ..gen.access import Access
from ..gen.bits import bit_program
from ..oracle import diff_case


class C06(Check):
    prop = "C06"
    rule = ("a case is one generated program storing to, copying and walking over random aggregates through random access "
            "paths, recording every scalar of every object afterwards, or one generated program reading, writing and "
            "updating a bit-field of one size at each position in its storage unit; distinct traces count")
    assumptions = ["gcc -O0 is the reference; a mismatch counts only if clang, gcc -O2 and the sanitizers confirm the "
                   "reference trace", "padding bytes and inactive union members are not observed"]

    def cases(self, tier):
        bits = ["bits-%s%d%s" % (s, n, "" if tier == "quick" else "-%d" % k) for s in "su" for n in range(1, 33)
                for k in range(1 if tier == "quick" else 8)]
        return bits + ["p%d" % i for i in range(1200 if tier == "quick" else 12000)]

    def run(self, ctx, case, rng):
        if case.startswith("bits-"):
            return diff_case(ctx.tool, [("t.c", bit_program(rng, int(case[6:].split("-")[0]), case[5] == "s"))])
        return diff_case(ctx.tool, [("t.c", Access(rng, nstmt=rng.choice([8, 16, 24])).build())])


CHECK = C06()
