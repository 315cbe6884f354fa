"""Programs with many values live at once (C11): big expression trees, many locals, calls, divisions, shifts, copies."""
from .expr import *
from .prog import MON_H


class Pressure:
    """every local is set from a volatile table, combined in random order and finally recorded, so all stay live"""

    def __init__(self, rng, nvars=24, stmts=30, fp=0.3, funcs=2, depth=4, loops=True, calls=0.2, structs=0.3):
        self.r = rng
        self.g = Gen(rng, False, fp, 0.15, 0.05, 0.05)
        self.nvars, self.stmts, self.fp, self.funcs, self.depth = nvars, stmts, fp, funcs, depth
        self.loops, self.calls, self.structs = loops, calls, structs
        self.uid = 0

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def ty(self):
        if self.r.random() < self.fp:
            return self.r.choice([FLOAT, DOUBLE, DOUBLE, DOUBLE, LDOUBLE])
        return self.r.choice(INTS + [INT, LONG, LONG, ULONG])

    def iv(self, ty):
        if isinstance(ty, Flt):
            return -1000.0, 1000.0
        if self.r.random() < 0.5:
            return ty.lo, ty.hi
        m = 100
        return (-m, m) if ty.signed else (0, m)

    def val(self, ty, iv):
        r = self.r
        if isinstance(ty, Flt):
            return "%d.%d" % (r.randrange(-99, 99), r.randrange(0, 99))
        v = max(iv[0], min(iv[1], boundary(r, ty)))
        return self.g.lit(v, 0.1).t

    def func(self, i):
        r, g = self.r, self.g
        keep = list(g.vars)
        pars, args, decls, body = [], [], [], []
        for _ in range(r.randrange(0, 12)):
            ty = self.ty()
            iv = self.iv(ty)
            n = self.name("q")
            g.vars.append(Var(n, ty, iv[0], iv[1]))
            pars.append("%s %s" % (ty.name, n))
            args.append(self.val(ty, iv))
        for _ in range(self.nvars):
            ty = self.ty()
            iv = self.iv(ty)
            n = self.name("v")
            decls.append("    %s %s;" % (ty.name, n))
            k = r.random()
            src = self.name("t")
            self.top.append("%s %s = %s;" % (ty.name, src, self.val(ty, iv)))
            if k < 0.3:
                body.append("    %s = id_%s(%s);" % (n, ty.name.replace(" ", "_"), src))
            else:
                body.append("    %s = %s;" % (n, src))
            g.vars.append(Var(n, ty, iv[0], iv[1]))
        st = []
        if r.random() < self.structs:
            tag = self.name("S")
            ms = [self.ty() for _ in range(r.randrange(1, 7))]
            self.top.append("struct %s { %s };" % (tag, " ".join("%s m%d;" % (t.name, k) for k, t in enumerate(ms))))
            self.top.append("struct %s gs_%s = {%s}, gd_%s;" % (tag, tag, ", ".join(self.val(t, self.iv(t)) for t in ms), tag))
            decls.append("    struct %s ls_%s;" % (tag, tag))
            body.append("    ls_%s = gs_%s;" % (tag, tag))
            st = [(tag, ms)]
        ctr = []

        def stmt(ind, nest):
            k = r.random()
            if self.loops and k < 0.12 and nest:
                c = self.name("i")
                ctr.append(c)
                body.append("%sfor (%s = 0; %s < %d; %s++) {" % (ind, c, c, r.randrange(1, 4), c))
                for _ in range(r.randrange(1, 4)):
                    stmt(ind + "    ", nest - 1)
                body.append(ind + "}")
                return
            if k < 0.2 and nest:
                body.append("%sif (%s) {" % (ind, g.expr(2, eff=False).t))
                stmt(ind + "    ", nest - 1)
                body.append(ind + "} else {")
                stmt(ind + "    ", nest - 1)
                body.append(ind + "}")
                return
            if st and k < 0.3:
                tag, ms = st[0]
                x, y = r.choice([("gd_", "ls_"), ("ls_", "gs_"), ("ls_", "gd_")])
                body.append("%s%s%s = %s%s;" % (ind, x, tag, y, tag))
                for m, t in enumerate(ms):
                    if r.random() < 0.4:
                        body.append("%sev_%s(%d, %s%s.m%d);" % (ind, "ld" if t is LDOUBLE else "d" if isinstance(t, Flt) else "i",
                                                                   g.new_site(), x, tag, m))
                return
            for _ in range(4):
                e = g.effect(r.randrange(2, self.depth + 1), EMPTY, EMPTY)
                if e is not None and k < 0.7:
                    body.append(ind + e.t + ";")
                    return
            body.append(ind + g.ev(g.expr(r.randrange(2, self.depth + 2))))
        for _ in range(self.stmts):
            stmt("    ", 2)
        loc = [v for v in g.vars if v not in keep]
        r.shuffle(loc)
        for v in loc:
            body.append("    " + g.ev(g.var_e(v)))
        g.vars = keep
        fn = self.name("f")
        self.top.append("void %s(%s) {\n%s\n}" % (fn, ", ".join(pars) or "void",
                        "\n".join(decls + ["    int %s = 0;" % c for c in ctr] + body)))
        return "%s(%s);" % (fn, ", ".join(args))

    def build(self):
        r, g = self.r, self.g
        self.top = []
        for ty in INTS + FLTS:
            n = "id_" + ty.name.replace(" ", "_")
            self.top.append("%s %s(%s x) { return x; }" % (ty.name, n, ty.name))
            g.funcs.append((n, ty, ty))
        calls = [self.func(i) for i in range(self.funcs)]
        self.top.append("int main(void) {\n%s\n    return 0;\n}" % "\n".join("    " + c for c in calls))
        return MON_H + "\n" + "\n\n".join(self.top) + "\n"
