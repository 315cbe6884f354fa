"""C14: literals and tokens against the reference compiler."""
from ..frame import Check
from ..gen.lits import Lits
from ..oracle import diff_case


class C14(Check):
    prop = "C14"
    rule = ("a case is one generated program of literal spellings (integer, floating, character, string; all radixes, suffixes, escapes, "
            "concatenations), operators written without spaces, odd comments, continuation lines inside tokens and trigraphs; the values, bytes, "
            "sizes and signednesses it records must be those of the reference")
    assumptions = ["gcc -std=gnu89 is the reference for values; spellings it rejects are not generated"]
    max_invalid = 0.1

    def cases(self, tier):
        return ["l%d" % i for i in range(1500 if tier == "quick" else 15000)]

    def run(self, ctx, case, rng):
        tri = rng.random() < 0.2
        s = Lits(rng, n=rng.choice([12, 30, 60]), trigraphs=tri, splice=rng.choice([0, 0, 0.02, 0.1]), comments=rng.choice([0, 0.2, 0.5]))
        return diff_case(ctx.tool, [("t.c", s.build())], ["--trigraphs"] if tri else [], ref_flags=["-trigraphs"] if tri else [])


CHECK = C14()
