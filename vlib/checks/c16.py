"""C16: conditionals, includes and line numbers against two independent preprocessors, and the lines diagnostics name."""
import os
import re

from .. import run as R
from ..frame import Check
from ..gen.direct import Directives
from ..gen.macros import tokens
from ..oracle import Res
from .c15 import first_diff

REFS = [["/usr/bin/gcc", "-std=gnu89", "-w", "-E", "-x", "c"], ["clang", "-std=gnu89", "-w", "-E", "-x", "c"]]
DIAG = re.compile(r"^(?P<file>[^:\n]+):(?P<line>\d+): (?P<msg>.*error.*)", re.M)

# (name, source, line of the error): every one has to be rejected, naming the line
ERRORS = [
    ("unterminated-if", "int a;\n#if 1\nint b;\n", None),
    ("unterminated-nested", "#ifdef X\n#if 1\n#endif\nint b;\n", None),
    ("stray-else", "int a;\n#else\n", 2),
    ("stray-endif", "int a;\n\n#endif\n", 3),
    ("stray-elif", "#elif 1\nint a;\n", 1),
    ("else-after-else", "#if 0\n#else\nint a;\n#else\n#endif\n", 4),
    ("elif-after-else", "#if 0\n#else\nint a;\n#elif 1\n#endif\n", 4),
    ("error", "int a;\n#if 1\n#error this is it\n#endif\n", 3),
    ("error-in-else", "int a;\n#if 0\n#else\n\n#error this is it\n#endif\n", 5),
    ("unknown", "int a;\n#foo\n", 2),
    ("missing-include", "int a;\n\n#include \"there/is/none.h\"\n", 3),
    ("empty-include", "#include\nint a;\n", 1),
    ("empty-if", "int a;\n#if\n#endif\n", 2),
    ("if-syntax", "int a;\n#if 1 +\n#endif\n", 2),
    ("if-trailing", "int a;\n#if 1 1\n#endif\n", 2),
    ("if-parens", "int a;\n#if (1\n#endif\n", 2),
    ("if-string", "int a;\n#if \"x\"\n#endif\n", 2),
    ("if-div0", "int a;\n#if 1 / 0\n#endif\n", 2),
    ("elif-syntax", "int a;\n#if 0\n#elif 2 *\n#endif\n", 3),
    ("defined-nothing", "#if defined\n#endif\nint a;\n", 1),
    ("defined-paren", "#if defined(X\n#endif\nint a;\n", 1),
    ("line-bad", "int a;\n#line foo\n", 2),
    ("define-nothing", "int a;\n#define\n", 2),
    ("define-number", "int a;\n#define 5 6\n", 2),
    ("ifdef-nothing", "int a;\n#ifdef\n#endif\n", 2),
    ("undef-nothing", "int a;\n#undef\n", 2),
    ("include-unterminated-in-header", "#include \"bad.h\"\nint a;\n", None),
]


def places(toks):
    """{declared marker: (file, line) of the declaration's first token}"""
    out = {}
    for i, x in enumerate(toks):
        if x[0].startswith(("mk", "mm")) and i:
            j = i - 2 if toks[i - 1][0] == "*" and i > 1 else i - 1
            out.setdefault(x[0], (os.path.normpath(toks[j][1] or "?"), toks[j][2]))
    return out


class C16(Check):
    prop = "C16"
    technique = "differential monitoring of preprocessed lines against two reference preprocessors, and of the lines diagnostics name"
    rule = ("a case is a tree of source files full of directives: wcc -E must keep the tokens on which gcc and clang agree, attribute each "
            "declaration to the file and line they do, and name that file and line when that declaration is made wrong; or a directed erroneous directive")
    assumptions = ["where gcc and clang agree on directives they implement the standard"]
    max_invalid = 0.2

    def cases(self, tier):
        return ["e:" + n for n, _, _ in ERRORS] + ["t%d" % i for i in range(1600 if tier == "quick" else 30000)]

    def write(self, t, files):
        for n, text in files.items():
            p = t.path(n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)

    def rejected(self, t, name):
        files = {"t.c": [s for n, s, _ in ERRORS if n == name][0], "bad.h": "#if 1\nint b;\n"}
        line = [l for n, _, l in ERRORS if n == name][0]
        self.write(t, files)
        for args in (["-c", "t.c", "-o", "t.o"], ["-E", "t.c", "-o", "t.i"]):
            r = R.run([t.wcc] + args, cwd=t.d)
            text = (r.out + r.err).decode("latin1")
            if r.timeout:
                return Res("inconclusive", "timeout", "wcc timed out", files)
            if r.rc == 0:
                return Res("violation", "erroneous directive accepted", "%s: %s exits 0" % (name, args[0]), files)
            m = DIAG.search(text)
            if r.rc != 1 or not m:
                return Res("violation", "erroneous directive not diagnosed", "%s: %s: status %s: %s" % (name, args[0], r.rc, text[:300]), files)
            if line is not None and (m.group("file"), int(m.group("line"))) != ("t.c", line):
                return Res("violation", "diagnostic names the wrong line", "%s: %s, expected t.c:%d" % (name, m.group(0)[:200], line), files)
        return Res("ok", "", "", files, {"erroneous_directives_rejected": 1}, key=name, sample="%s: %s" % (name, m.group(0)[:80]))

    def run(self, ctx, case, rng):
        t = ctx.tool
        if case.startswith("e:"):
            return self.rejected(t, case[2:])
        g = Directives(rng, lines=rng.choice([8, 20, 40]), nfiles=rng.choice([1, 4, 8]), with_line=rng.random() < 0.5, garbage=rng.random() < 0.6).build()
        files = dict(g.files)
        self.write(t, g.files)
        ref = None
        for cmd in REFS:
            r = R.run(cmd + g.flags + [g.main], cwd=t.d)
            if r.rc != 0 or b"error:" in r.err:
                return Res("invalid", "reference rejects", r.err.decode("latin1")[:300], files, {"references_reject": 1})
            v = tokens(r.out.decode("latin1"))
            s = [x[0] for x in v], places(v)
            if ref is None:
                ref = s
            elif ref != s:
                return Res("ok", "disagree", "", files, {"references_disagree": 1})
        want, where = ref
        r = R.run([t.wcc, "-E"] + g.flags + [g.main, "-o", "t.i"], cwd=t.d)
        if r.timeout:
            return Res("inconclusive", "timeout", "wcc -E timed out", files)
        if r.rc != 0:
            return Res("violation", "valid directives rejected", "status %s: %s" % (r.rc, (r.out + r.err).decode("latin1")[:400]), files)
        with open(t.path("t.i"), encoding="latin1") as f:
            text = f.read()
        v = tokens(text)
        got = [x[0] for x in v]
        files["wcc.i"] = text
        if got != want:
            i = first_diff(got, want)
            return Res("violation", "wrong lines kept", "token %d: wcc gives %s, the references give %s" % (
                i, " ".join(got[max(0, i - 6):i + 5]), " ".join(want[max(0, i - 6):i + 5])), files)
        for m, place in places(v).items():
            if place != where[m]:
                return Res("violation", "wrong line number", "%s is at %s:%d in wcc's output, the references have it at %s:%d" % ((m,) + place + where[m]), files)
        st = {"tokens_compared": len(got), "positions_compared": len(where), "files": len(g.files),
              "conditionals": sum(s.count("#if") for s in g.files.values()), "diagnostic_lines_compared": 0}
        # make one kept declaration wrong: the message must name its line
        names = sorted(m for m in where if m.startswith("mk"))
        for _ in range(2):
            if not names:
                break
            m = rng.choice(names)
            broken = {}
            for n, s in g.files.items():
                broken[n] = re.sub(r"\b%s\b" % m, "%s %s" % (m, m), s)
                if broken[n] != s:
                    with open(t.path(n), "w") as f:
                        f.write(broken[n])
            r = R.run([t.wcc, "-c"] + g.flags + [g.main, "-o", "t.o"], cwd=t.d)
            self.write(t, g.files)
            out = (r.out + r.err).decode("latin1")
            d = DIAG.search(out)
            if r.timeout:
                continue
            if r.rc != 1 or not d:
                return Res("violation", "syntax error not diagnosed", "%s twice: status %s %s" % (m, r.rc, out[:300]), dict(broken))
            if (os.path.normpath(d.group("file")), int(d.group("line"))) != where[m]:
                return Res("violation", "diagnostic names the wrong line", "%s is at %s:%d, wcc says %s" % ((m,) + where[m] + (d.group(0)[:200],)), dict(broken))
            st["diagnostic_lines_compared"] += 1
        return Res("ok", "", "", files, st, key=hash(tuple(got)), sample="%d tokens of %d files" % (len(got), len(g.files)))


CHECK = C16()
