"""C12: separately compiled units, position-independent code and shared libraries."""
import os

from .. import run as R
from ..frame import Check
from ..gen.units import Units
from ..gen.prog import MON_H
from ..oracle import Res, diff_case, program_valid, txt

GCC = "/usr/bin/gcc"
DIRECTED = {
    "d:static-then-plain": [("u0.c", MON_H + "static int f(int);\nint g(int);\nint f(int a) { return a + 1; }\nint main(void) { ev_i(1, f(1)); ev_i(2, g(2)); return 0; }\n"),
                            ("u1.c", "int f(int a) { return a + 5; }\nint g(int a) { return f(a); }\n")],
}


class C12(Check):
    prop = "C12"
    rule = ("a case is one generated program of two to four translation units that share objects and functions (internal, external and tentative definitions, "
            "block scope declarations, addresses in initializers, same names in different units); its trace must be the reference's in every layout tried: units "
            "compiled by wcc, gcc or clang, position-dependent, PIE, and some units in a shared library, linked by the linker or by wcc itself; the symbols "
            "the objects define must have the reference's binding, kind and size")
    assumptions = ["gcc -fcommon is the reference for linkage", "ld and ld.so are correct"]
    max_invalid = 0.05

    def cases(self, tier):
        return sorted(DIRECTED) + ["u%d" % i for i in range(500 if tier == "quick" else 6000)]

    def symbols(self, t, objs):
        """per object: what it defines for other units, and what it needs"""
        r = R.run(["/usr/bin/nm", "-A", "-f", "posix", *objs], cwd=t.d)
        out = {o: ({}, set()) for o in objs}
        for line in r.out.decode().split("\n"):
            o, _, rest = line.partition(": ")
            f = rest.split()
            if len(f) < 2 or o not in out:
                continue
            if f[1] == "U":
                out[o][1].add(f[0])
            elif f[1] == "T":
                out[o][0][f[0]] = "a function"
            elif f[1] in "DBR":
                out[o][0][f[0]] = "an object of size %d" % (int(f[3], 16) if len(f) > 3 else -1)
            elif f[1] == "C":
                out[o][0][f[0]] = "common of size %d" % int(f[3] if len(f) > 3 else f[2], 16)
        return out

    def link(self, t, exe, main, lib, pie, name, wcc=None):
        mon = os.path.join(t.rt, "mon.o")
        extra, rpath = [], []
        if lib:
            so = t.path("lib%s.so" % name)
            r = R.run([wcc, "-shared", "-fPIC", *lib, "-o", so], cwd=t.d, env=R.ENV, cpu=60) if wcc else t.link_as("shared", lib, so)
            if r.rc != 0:
                return r
            extra = ["-L" + t.d, "-l" + name]
            rpath = ["-Wl,-rpath,%s" % t.d] if wcc else ["-rpath", "$ORIGIN"]
        if wcc:
            return R.run([wcc, "-o", exe, *main, mon, *extra, *rpath], cwd=t.d, env=R.ENV, cpu=60)
        return t.link_as("pie" if pie else "exe", main, exe, [*rpath, *extra])

    def run(self, ctx, case, rng):
        t = ctx.tool
        if case in DIRECTED:
            return diff_case(t, DIRECTED[case])
        n = rng.choice([2, 3, 3, 4])
        srcs = Units(rng, n, rng.choice([4, 8, 14]), rng.choice([4, 8])).build()
        paths = [t.write(a, b) for a, b in srcs]
        files = dict(srcs)
        st = {"programs": 1}
        lib = set(rng.sample(range(1, n), rng.randrange(1, n)))
        layouts = [("static", set(), False), ("static", set(), True), ("shared", lib, False), ("shared", lib, True)]
        rng.shuffle(layouts)
        expect = None
        refs = {}
        for kind, libs, pie in layouts[:2]:
            def compile_all(who, tag):
                objs = []
                for i, p in enumerate(paths):
                    pic = i in libs or pie
                    o = t.path("%s_%d.o" % (tag, i))
                    if who[i] == "wcc":
                        r = t.wcc_o(p, o, ["-fPIC"] if pic else [])
                    else:
                        r = t.ref_o(p, o, ["-fPIC"] if pic else [], *who[i])
                    if r.rc != 0:
                        return who[i], r
                    objs.append(o)
                return None, objs
            # reference
            bad, objs = compile_all([(GCC, "-O0")] * n, "ref")
            if bad:
                return Res("invalid", "invalid", txt(objs.err), files, st)
            refs[kind, pie] = objs
            r = self.link(t, t.path("ref"), [o for i, o in enumerate(objs) if i not in libs], [o for i, o in enumerate(objs) if i in libs], pie, "ref")
            if r.rc != 0:
                return Res("invalid", "invalid", txt(r.err), files, st)
            x = t.exe(t.path("ref"))
            if x.timeout or x.rc != 0:
                return Res("invalid", "invalid", "reference run: exit %d" % x.rc, files, st)
            st["events"] = st.get("events", 0) + len(R.records(x.out))
            if expect is None:
                expect = x.rc, x.out
            elif expect != (x.rc, x.out):
                return Res("invalid", "invalid", "the reference depends on the layout", files, st)
            partners = [(GCC, "-O0"), (GCC, "-O2"), ("/usr/bin/clang", "-O0")]
            mixes = [["wcc"] * n]
            for _ in range(1):
                m = [rng.choice(["wcc", "wcc", rng.choice(partners)]) for _ in range(n)]
                if "wcc" in m and m not in mixes:
                    mixes.append(m)
            for m in mixes:
                desc = "%s%s, library units %s, units by %s" % (kind, " pie" if pie else "", sorted(libs), " ".join(x if x == "wcc" else x[0][9:] + x[1] for x in m))
                bad, objs2 = compile_all(m, "w")
                if bad and bad != "wcc":
                    return Res("invalid", "invalid", txt(objs2.err), files, st)
                v = None
                if bad:
                    v = ("compile-failure", txt(objs2.err + objs2.out))
                else:
                    if m == mixes[0]:
                        a, b = self.symbols(t, objs), self.symbols(t, objs2)
                        known = {x for d, u in a.values() for x in [*d, *u]}
                        for i in range(n):
                            (d1, u1), (d2, u2) = a[objs[i]], b[objs2[i]]
                            st["symbols compared"] = st.get("symbols compared", 0) + len(d1)
                            if d1 != d2:
                                k = sorted(k for k in set(d1) | set(d2) if d1.get(k) != d2.get(k))[0]
                                v = ("symbols", "%s in unit %d is %s, not %s" % (k, i, d2.get(k, "missing"), d1.get(k, "missing")))
                            elif u2 - u1 - known - {"_GLOBAL_OFFSET_TABLE_"}:
                                v = ("symbols", "unit %d needs %s, which nothing defines" % (i, sorted(u2 - known)))
                    wl = t.wcc if rng.random() < 0.15 else None
                    r = self.link(t, t.path("wexe"), [o for i, o in enumerate(objs2) if i not in libs], [o for i, o in enumerate(objs2) if i in libs], pie, "w", wl)
                    if r.rc != 0:
                        v = v or ("link-failure", "\n".join(x for x in txt(r.err, 5000).split("\n") if "warning" not in x)[:500])
                    else:
                        x = t.exe(t.path("wexe"))
                        st["runs"] = st.get("runs", 0) + 1
                        st[kind + (" pie" if pie else "")] = st.get(kind + (" pie" if pie else ""), 0) + 1
                        if (x.rc, x.out) != expect:
                            d = R.first_diff(expect[1], x.out)
                            v = v or ("trace", "exit %d, " % x.rc + ("event %d: reference %s; wcc %s" % (d[0], R.fmt(d[1]), R.fmt(d[2])) if d else "same events"))
                if v:
                    ok, why = program_valid(t, paths, expect)
                    files["layout.txt"] = desc
                    if not ok:
                        return Res("invalid", "invalid", v[1] + "; but " + why, files, st)
                    return Res("violation", v[0], v[1] + " [%s]" % desc, files, st)
        return Res("ok", stats=st, key=hash(expect[1]), sample="%d units, %d events in %d runs" % (n, len(R.records(expect[1])), st.get("runs", 0)))


CHECK = C12()
