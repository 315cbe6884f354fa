"""C21: -g doesn't change the program, and the lines of the instructions it executes are those of the statements it executes."""
import os
import re
import struct

from .. import run as R
from ..frame import Check
from ..gen.lines import Lines
from ..oracle import Res

DEBUG_LINE = re.compile(r"^\s*\.(loc|file)\b.*$")
ROW = re.compile(r"^(\S+)\s+(\d+|-)\s+(0x[0-9a-f]+)\b")


def without_debug(asm):
    """the assembly without line directives and what follows the code"""
    out = []
    for l in asm.split("\n"):
        if ".section" in l and ".debug" in l:
            break
        if not DEBUG_LINE.match(l) and l.strip():
            out.append(l.strip())
    return out


def rows(t, exe):
    """[(address, file, line or None at the end of a sequence)] sorted by address"""
    r = R.run(["/usr/bin/objdump", "--dwarf=decodedline", "-W", exe] if 0 else ["/usr/bin/objdump", "--dwarf=decodedline", exe], cwd=t.d)
    out = []
    for l in r.out.decode("latin1").split("\n"):
        m = ROW.match(l)
        if m:
            out.append((int(m.group(3), 16), m.group(1), None if m.group(2) == "-" else int(m.group(2))))
    return sorted(out, key=lambda x: (x[0], x[2] is not None))


def functions(t, exe):
    r = R.run(["/usr/bin/nm", exe], cwd=t.d)
    return sorted({int(l.split()[0], 16) for l in r.out.decode("latin1").split("\n") if re.match(r"^\S+ [tT] (fn\d+|main)$", l)})


class C21(Check):
    prop = "C21"
    technique = "single-stepped runs: the sequence of source statements the line table gives for the executed instructions, compared with the reference build's"
    rule = ("a case is a program with its statements spread over lines, included files and renamed lines; it's compiled with -g by wcc and gcc and single-stepped. "
            "The statements of the executed instructions, in order, have to be the same, and so have the events; the code has to be the same as without -g")
    assumptions = ["gcc -g -O0 and clang -g -O0 agree on the statements executed where they are those of the program", "objdump decodes line tables"]
    max_invalid = 0.1

    def cases(self, tier):
        return ["p%d" % i for i in range(500 if tier == "quick" else 8000)]

    def steps(self, t, exe, g):
        """(result, statement ids in the order executed, [(file, line) not of a statement])"""
        p = t.path("steps")
        if os.path.exists(p):
            os.unlink(p)
        x = t.exe(exe, cpu=30)
        if x.timeout or x.rc:
            return x, None, None
        with open(p, "rb") as f:
            b = f.read()
        ips = struct.unpack("%dI" % (len(b) // 4), b)
        table, fns = rows(t, exe), functions(t, exe)
        look = {}
        import bisect
        addrs = [r[0] for r in table]
        for ip in set(ips):
            i = bisect.bisect_right(addrs, ip) - 1
            f = bisect.bisect_right(fns, ip) - 1
            # the beginning of a function may have no line
            look[ip] = table[i][1:] if i >= 0 and f >= 0 and table[i][0] >= fns[f] else (None, None)
        seq = []
        odd = {}
        for ip in ips:
            name, line = look[ip]
            s = g.where.get((name, line)) or g.where.get((name and name.split("/")[-1], line))
            if s is None:
                odd[(name, line)] = odd.get((name, line), 0) + 1
                continue
            if not seq or seq[-1] != s:
                seq.append(s)
        self.count = len(ips)
        return x, seq, odd

    def build(self, t, obj, name):
        exe = t.path(name)
        r = t.link([os.path.join(t.rt, "ubegin.o"), obj, os.path.join(t.rt, "uend.o")], exe, extra=[os.path.join(t.rt, "step.o")])
        return exe if r.rc == 0 else None

    def run(self, ctx, case, rng):
        t = ctx.tool
        g = Lines(rng, nfuncs=rng.choice([1, 3, 5]), size=rng.choice([3, 6]), nest=rng.choice([1, 2, 3]), split=rng.choice([0.03, 0.1, 0.3]), files=rng.random() < 0.6)
        files = g.build()
        for n, s in files.items():
            t.write(n, s)
        o = t.path("r.o")
        r = t.ref_o("t.c", o, ["-g"])
        exe = r.rc == 0 and self.build(t, o, "rexe")
        if not exe:
            return Res("invalid", "reference build", r.err.decode("latin1")[:300], files)
        ref, want, _ = self.steps(t, exe, g)
        if want is None:
            return Res("invalid", "reference run", "status %d" % ref.rc, files)

        o = t.path("w.o")
        r = t.wcc_o("t.c", o, ["-g"])
        if r.timeout:
            return Res("inconclusive", "timeout", "wcc", files)
        if r.rc:
            return Res("violation", "compile-failure", r.err.decode("latin1")[:300], files)
        exe = self.build(t, o, "wexe")
        if not exe:
            return Res("violation", "link-failure", "", files)
        x, got, odd = self.steps(t, exe, g)
        if x.timeout:
            return Res("inconclusive", "timeout", "run", files)
        if (x.rc, x.out) != (ref.rc, ref.out):
            return Res("violation", "trace", "the program compiled with -g behaves differently, status %d" % x.rc, files)
        steps = self.count
        r = t.wcc_s("t.c", t.path("plain.s"))
        with open(t.path("plain.s")) as f, open(o + ".s") as h:
            a, b = without_debug(f.read()), without_debug(h.read())
        if a != b:
            i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            return Res("violation", "-g changes the code", "%s / %s" % (a[i:i + 3], b[i:i + 3]), files)
        if got != want:
            o = t.path("c.o")
            r = t.ref_o("t.c", o, ["-g"], cc="clang")
            exe = r.rc == 0 and self.build(t, o, "cexe")
            second = self.steps(t, exe, g)[1] if exe else None
            if second != want:
                return Res("invalid", "references disagree", "", files, {"references_disagree": 1})
            i = next((i for i, (p, q) in enumerate(zip(got, want)) if p != q), min(len(got), len(want)))

            def show(v):
                return " / ".join("[%d] %s" % (s, g.text[s][:60]) for s in v[max(0, i - 1):i + 2])
            return Res("violation", "wrong line", "statement %d of the execution: wcc's line table says %s, the references %s" % (i, show(got), show(want)), files)
        st = {"programs": 1, "instructions_stepped": steps, "statements_executed": len(want), "statements": len(set(want)),
              "files": len({f for f, _ in g.where})}
        return Res("ok", "", "", files, st, key=repr(files), sample="%d instructions in %d steps between statements" % (steps, len(want)))


CHECK = C21()
