"""Assembles monitored programs around generated expressions: straight-line exact functions (C01, C02, C06)."""
from .expr import *

MON_H = """void ev_i(int site, long v);
void ev_u(int site, unsigned long v);
void ev_f(int site, float v);
void ev_d(int site, double v);
void ev_ld(int site, long double v);
void ev_s(int site, char *s);
void ev_m(int site, void *p, unsigned long n);
void ev_b(int site);
int tick(int site, int v);
void *mon_guard(unsigned long n);
"""


def flit_for(g, ty):
    e = g.flit()
    return e


class Straight:
    """One program of straight-line functions with exactly known integer values."""

    def __init__(self, rng, nfuncs=6, stmts=10, depth=4, fp=0.0, effects=0.25, tick=0.05, aggregates=True,
                 bitfields=True, pointers=True, types=True):
        self.r = rng
        self.g = Gen(rng, True, fp, effects, 0.08, tick)
        self.n, self.stmts, self.depth, self.fp = nfuncs, stmts, depth, fp
        self.aggregates, self.bitfields, self.pointers, self.types = aggregates, bitfields, pointers, types
        self.top = []
        self.uid = 0
        self.events = 0

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def ty(self):
        r = self.r
        return r.choice(FLTS) if r.random() < self.fp else r.choice(INTS)

    def const_for(self, ty):
        """an initializer (constant) for ty and the resulting interval"""
        g = self.g
        if isinstance(ty, Flt):
            e = g.flit() if self.r.random() < 0.7 else g.lit(self.r.randrange(-50, 200))
        else:
            v = boundary(self.r, ty)
            e = g.lit(v)
            if self.r.random() < 0.1:
                e = g.lit(boundary(self.r, self.r.choice(INTS)))
        iv = conv_iv(e.lo, e.hi, e.ty, ty)
        return e, iv

    def mk_scalar(self, where, body, storage=None):
        """declares a scalar; where: 'global' or 'local'. Returns Var."""
        r = self.r
        ty = self.ty()
        n = self.name("g" if where == "global" else "l")
        e, iv = self.const_for(ty)
        if where == "global":
            st = r.choice(["", "", "static ", "volatile "])
        else:
            st = r.choice(["", "", "", "", "register ", "volatile ", "static "])
        v = Var(n, ty, iv[0], iv[1])
        spell = self.g.spelling(ty) if isinstance(ty, Int) else ty.name
        const = r.random() < 0.05
        if const:
            st += "const "
            v.const = True
        init = e.t
        if where == "local" and st != "static " and not const and r.random() < 0.4:
            # a full expression as the initializer
            e2 = self.g.coerce(v, self.g.expr(2, eff=False))
            iv2 = v.store_iv(e2.lo, e2.hi, e2.ty)
            if iv2 is not None:
                init, (v.lo, v.hi) = self.g.par(e2, ASG), iv2
        body.append("%s%s %s = %s;" % (st, spell, n, init))
        if "register" not in st and r.random() < 0.3:
            v.ways.append(("*&" + n, UNARY, EMPTY))
        if "register" not in st and "volatile" not in st and not const and self.pointers and r.random() < 0.25:
            pn = self.name("p")
            body.append("%s *%s = &%s;" % (ty.name, pn, n))
            v.ways += [("*" + pn, UNARY, EMPTY), (pn + "[0]", POST, EMPTY)]
            if r.random() < 0.4:
                pp = self.name("pp")
                body.append("%s **%s = &%s;" % (ty.name, pp, pn))
                v.ways += [("**" + pp, UNARY, EMPTY), ("*" + pp + "[0]", UNARY, EMPTY)]
        return [v]

    def index_ways(self, base, k, ivars):
        """extra spellings of base[k] through an integer variable of known value"""
        out = []
        for iv in ivars:
            if iv.lo is None or iv.lo != iv.hi or abs(iv.lo) > 1000:
                continue
            if iv.ty.rank > 1 and isinstance(iv.ty, Int):
                dlt = k - iv.lo
                idx = iv.name + (" + %d" % dlt if dlt > 0 else " - %d" % -dlt if dlt < 0 else "")
                if not iv.ty.signed and iv.ty.rank == 3 and dlt < 0:
                    continue
                if not iv.ty.signed and iv.ty.rank == 3 and iv.lo < 0:
                    continue
                out.append(("%s[%s]" % (base, idx), POST, frozenset([iv.id])))
        return out

    def mk_array(self, where, body):
        r = self.r
        ty = self.ty()
        n = r.randrange(2, 6)
        name = self.name("a")
        vals = []
        vs = []
        for k in range(n):
            e, iv = self.const_for(ty)
            vals.append(e.t)
            v = Var(name, ty, iv[0], iv[1], vid="%s[]" % name)
            v.ways = [("%s[%d]" % (name, k), POST, EMPTY), ("*(%s + %d)" % (name, k), UNARY, EMPTY),
                      ("%d[%s]" % (k, name), POST, EMPTY)]
            vs.append(v)
        st = r.choice(["", "", "static "])
        body.append("%s%s %s[%d] = {%s};" % (st, ty.name, name, n, ", ".join(vals)))
        pn = None
        if self.pointers and r.random() < 0.6:
            pn = self.name("p")
            off = r.randrange(0, n)
            body.append("%s *%s = %s;" % (ty.name, pn, r.choice(["&%s[%d]" % (name, off), "%s + %d" % (name, off)])))
            for k, v in enumerate(vs):
                d = k - off
                v.ways.append(("%s[%d]" % (pn, d), POST, EMPTY))
                v.ways.append(("*(%s %s %d)" % (pn, "+" if d >= 0 else "-", abs(d)), UNARY, EMPTY))
        idx = [v for v in self.scal if isinstance(v.ty, Int)]
        for k, v in enumerate(vs):
            v.rng = (lambda k=k: self.index_ways(name, k, self.r.sample(idx, min(2, len(idx)))))
        return vs

    def mk_struct(self, where, body):
        r = self.r
        tag = self.name("S")
        n = r.randrange(2, 7)
        ms, inits, mv = [], [], []
        for k in range(n):
            mn = "m%d" % k
            if self.bitfields and r.random() < 0.35:
                ty = r.choice([INT, UINT])
                bits = r.choice([1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32])
                v = Var(mn, ty, 0, 0, bits=bits)
                x = r.randrange(v.tlo, v.thi + 1) if r.random() < 0.6 else r.choice([v.tlo, v.thi])
                v.lo = v.hi = x
                sp = "signed int" if ty.signed else "unsigned int"
                ms.append("%s %s : %d;" % (sp, mn, bits))
                inits.append(self.g.lit(x, 0).t)
            else:
                ty = self.ty()
                e, iv = self.const_for(ty)
                v = Var(mn, ty, iv[0], iv[1])
                ms.append("%s %s;" % (ty.name, mn))
                inits.append(e.t)
            mv.append(v)
        self.top.append("struct %s { %s };" % (tag, " ".join(ms)))
        name = self.name("s")
        body.append("%sstruct %s %s = {%s};" % (r.choice(["", "", "static "]), tag, name, ", ".join(inits)))
        pn = None
        if self.pointers and r.random() < 0.7:
            pn = self.name("p")
            body.append("struct %s *%s = &%s;" % (tag, pn, name))
        for v in mv:
            m = v.name
            v.id = "%s.%s" % (name, m)
            v.ways = [("%s.%s" % (name, m), POST, EMPTY), ("(&%s)->%s" % (name, m), POST, EMPTY)]
            if pn:
                v.ways += [("%s->%s" % (pn, m), POST, EMPTY), ("(*%s).%s" % (pn, m), POST, EMPTY)]
            v.name = name + "." + m
        return mv

    def decls(self, where, body, n):
        out = []
        for _ in range(n):
            k = self.r.random()
            if k < 0.65 or not self.aggregates:
                vs = self.mk_scalar(where, body)
                if not vs[0].const or True:
                    self.scal += vs
            elif k < 0.82:
                vs = self.mk_array(where, body)
            else:
                vs = self.mk_struct(where, body)
            out += vs
            self.g.vars += vs
        return out

    def observe(self, v):
        self.events += 1
        return self.g.ev(self.g.var_e(v))

    def stmt(self, out, ind="    "):
        r, g = self.r, self.g
        k = r.random()
        if k < 0.5:
            self.events += 1
            e = g.expr(r.randrange(1, self.depth + 1))
            out.append(ind + g.ev(e))
            if self.types and r.random() < 0.3 and e.bits is None and len(e.t) < 200:
                out.append(ind + g.ev_type(e))
        elif k < 0.85:
            for _ in range(5):
                e = g.effect(r.randrange(1, self.depth + 1), EMPTY, EMPTY)
                if e is not None:
                    out.append(ind + e.t + ";")
                    break
            if r.random() < 0.5:
                v = g.pick_var(EMPTY)
                if v:
                    out.append(ind + self.observe(v))
        elif k < 0.93:
            c = g.expr(2)
            t = c.truth
            if t is None:
                out.append(ind + g.ev(c))
                return
            a, b = [], []
            s = g.snap()
            if t:
                self.stmt(a, ind + "    ")
                s = g.snap()
                self.stmt(b, ind + "    ")
            else:
                self.stmt(a, ind + "    ")
                g.restore(s)
                self.stmt(b, ind + "    ")
                s = g.snap()
            if t:
                g.restore(s)
            out.append(ind + "if (%s) {" % c.t)
            out += a
            out.append(ind + "} else {")
            out += b
            out.append(ind + "}")
        else:
            self.events += 1
            out.append(ind + g.ev(g.expr(1)))

    def func(self):
        r, g = self.r, self.g
        keep = list(g.vars)
        keep_scal = list(self.scal)
        fn = self.name("f")
        np = r.choice([0, 1, 2, 2, 3, 4, 6, 9])
        pars, args = [], []
        for _ in range(np):
            ty = self.ty()
            n = self.name("q")
            e, iv = self.const_for(ty)
            v = Var(n, ty, iv[0], iv[1])
            if r.random() < 0.25:
                v.ways.append(("*&" + n, UNARY, EMPTY))
            pars.append("%s%s %s" % (r.choice(["", "", "", "register "]) if len(v.ways) == 1 else "", ty.name, n))
            args.append(e.t)
            g.vars.append(v)
            self.scal.append(v)
        body = []
        self.decls("local", body, r.randrange(2, 8))
        out = ["    " + b for b in body]
        # declarations may not follow statements in C89, all are in body
        for _ in range(self.stmts):
            self.stmt(out)
        for v in g.vars:
            if r.random() < 0.7:
                out.append("    " + self.observe(v))
        g.vars = keep
        self.scal = keep_scal
        self.top.append("void %s(%s) {\n%s\n}" % (fn, ", ".join(pars) or "void", "\n".join(out)))
        return "%s(%s);" % (fn, ", ".join(args))

    def build(self):
        g = self.g
        self.scal = []
        tys = INTS + (FLTS if self.fp else [])
        for ty in tys:
            n = "id_" + ty.name.replace(" ", "_")
            self.top.append("%s%s %s(%s x) { return x; }" % (self.r.choice(["static ", ""]), ty.name, n, ty.name))
            g.funcs.append((n, ty, ty))
        body = []
        self.decls("global", body, self.r.randrange(3, 8))
        self.top += body
        calls = [self.func() for _ in range(self.n)]
        self.top.append("int main(void) {\n%s\n    return 0;\n}" % "\n".join("    " + c for c in calls))
        return MON_H + "\n" + "\n\n".join(self.top) + "\n"
