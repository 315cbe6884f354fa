"""C18: constraint and syntax violations are rejected, naming the file and line, and the program without the violation is accepted."""
import os
import re

from .. import run as R
from ..frame import Check
from ..gen import compat, viol
from ..oracle import Res

GCC = ["/usr/bin/gcc", "-std=gnu89", "-pedantic-errors", "-Wno-long-long", "-fsyntax-only", "-fdiagnostics-color=never", "t.c"]
DIAG = re.compile(r"^(?P<file>[^:\n]+):(?P<line>\d+): error: (?P<msg>.*)", re.M)
TABLES = [("expr", viol.EXPRS), ("stmt", viol.STMTS), ("decl", viol.DECLS), ("file", viol.FILE)]

# (name, bad, good): accepted violations that aren't repaired
KNOWN = [
    ("comma-lvalue", "int i, j; void f(void) { (i, j) = 3; }\n", "int i, j; void f(void) { i, j = 3; }\n"),
    ("fnptr-compare", "int (*f)(int); int (*g)(long); int h(void) { return f == g; }\n", "int (*f)(int); int (*g)(int); int h(void) { return f == g; }\n"),
    ("redecl-sign", "extern int i; extern unsigned i;\n", "extern int i; extern int i;\n"),
    ("redecl-array", "extern int *p; extern int p[3];\n", "extern int *p; extern int *p;\n"),
    ("redecl-pointee", "extern int *p; extern const int *p;\n", "extern int *p; extern int *p;\n"),
    ("assign-lvalue", "int i, j; void f(void) { (i = j) = 3; }\n", "int i, j; void f(void) { i = j = 3; }\n"),
]


class C18(Check):
    prop = "C18"
    technique = "monitoring of the compiler's verdict and diagnostics on pairs of programs that differ in one violation, against a reference compiler's verdict"
    rule = ("a case is a pair of programs that differ in one violation of a table of rules, put in a random context: expression position, nesting, function, included "
            "file, renamed lines; the reference accepts one and rejects the other, wcc has to as well, by an error message that names the file and the line")
    assumptions = ["gcc -std=gnu89 -pedantic-errors accepts the valid and rejects the invalid program of a pair; pairs where it doesn't aren't counted"]
    max_invalid = 0.05

    def cases(self, tier):
        k = 5 if tier == "quick" else 60
        return ["d:" + n for n, _, _ in KNOWN] + ["types-%d" % i for i in range(300 if tier == "quick" else 4000)] + ["%s.%d.%d" % (kind, i, j) for j in range(k) for kind, tab in TABLES for i in range(len(tab))]

    def write(self, t, files):
        for n in ("t.c", "inc.h", "t.o"):
            if os.path.exists(t.path(n)):
                os.unlink(t.path(n))
        for n, text in files.items():
            with open(t.path(n), "w") as f:
                f.write(text)

    def types(self, t, rng):
        """pairs of declarations or uses of two types, the same or different"""
        n = {"type_pairs": 0, "type_pairs_compatible": 0}
        key = ""
        for _ in range(12):
            p = compat.pair(rng)
            if not p:
                continue
            good, bad, what, use = p
            for src, same in ((good, True), (bad, False)):
                self.write(t, {"t.c": src})
                g = R.run(GCC, cwd=t.d)
                if same and g.rc:
                    break
                w = R.run([t.wcc, "-c", "t.c", "-o", "t.o"], cwd=t.d)
                if w.timeout:
                    return Res("inconclusive", "timeout", what, {"t.c": src})
                out = (w.out + w.err).decode("latin1")[:300]
                if g.rc == 0 and w.rc:
                    return Res("violation", "valid program rejected: types " + use, "%s\nstatus %s: %s" % (what, w.rc, out), {"t.c": src})
                if g.rc and w.rc == 0:
                    return Res("violation", "violation accepted: types " + use, what, {"t.c": src})
                if w.rc and (w.rc < 0 or not DIAG.search(out)):
                    return Res("violation", "violation isn't diagnosed: types " + use, "%s\nstatus %s: %s" % (what, w.rc, out), {"t.c": src})
                k = "type_pairs" if g.rc else "type_pairs_compatible"
                n[k] += 1
                key += src
        return Res("ok", "", "", {"t.c": key}, n, key=key)

    def run(self, ctx, case, rng):
        t = ctx.tool
        if case.startswith("types-"):
            return self.types(t, rng)
        if case.startswith("d:"):
            p = viol.Pair()
            bad, good = [(b, g) for n, b, g in KNOWN if n == case[2:]][0]
            p.bad, p.good, p.where, p.lo, p.hi, p.hi_any, p.also, p.rule, p.text = {"t.c": bad}, {"t.c": good}, "t.c", 1, 1, False, None, "lvalue", case
        else:
            kind, i, _ = case.split(".")
            p = viol.build(rng, kind, int(i))
        files = {"good-" + n: s for n, s in p.good.items()}
        files.update({"bad-" + n: s for n, s in p.bad.items()})
        what = "%s: %s" % (p.rule, p.text)

        self.write(t, p.good)
        g = R.run(GCC, cwd=t.d)
        if g.rc:
            return Res("invalid", "reference rejects the valid program", what + "\n" + g.err.decode("latin1")[:400], files)
        w = R.run([t.wcc, "-c", "t.c", "-o", "t.o"], cwd=t.d)
        if w.timeout:
            return Res("inconclusive", "timeout", what, files)
        if w.rc:
            return Res("violation", "valid program rejected", "%s\nstatus %s: %s" % (what, w.rc, (w.out + w.err).decode("latin1")[:400]), files)

        self.write(t, p.bad)
        g = R.run(GCC, cwd=t.d)
        if not g.rc:
            return Res("invalid", "reference accepts the invalid program", what, files)
        w = R.run([t.wcc, "-c", "t.c", "-o", "t.o"], cwd=t.d)
        text = (w.out + w.err).decode("latin1")
        if w.timeout:
            return Res("inconclusive", "timeout", what, files)
        if w.rc == 0:
            return Res("violation", case if case.startswith("d:") else "violation accepted: " + p.rule, what, files)
        m = DIAG.search(text)
        if w.rc < 0 or not m:
            return Res("violation", "violation isn't diagnosed: " + p.rule, "%s\nstatus %s: %s" % (what, w.rc, text[:300]), files)
        name, line = os.path.basename(m.group("file")), int(m.group("line"))
        right = name == p.where and p.lo <= line and (line <= p.hi or p.hi_any) or p.also and name == p.also
        if not right:
            return Res("violation", "diagnostic names the wrong line: " + p.rule, "%s\nit is in %s:%d, and wcc says %s" % (what, p.where, p.lo, m.group(0)[:200]), files)
        if os.path.exists(t.path("t.o")):
            return Res("violation", "output of a rejected program", what, files)
        st = {"violations_rejected": 1, "valid_accepted": 1, "rule_" + p.rule: 1, "in_include": int(p.where == "inc.h"), "renamed_lines": int(p.where == "other.y")}
        return Res("ok", "", "", files, st, key=p.bad["t.c"] + p.bad.get("inc.h", ""), sample="%s -> %s" % (what, m.group(0)[:100]))


CHECK = C18()
