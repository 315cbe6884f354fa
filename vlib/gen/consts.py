"""Programs that use one expression both where a constant is required and at run time, on variables with the same values (C03)."""
import re

from .core import FLTS, INT, INTS, LONG, UINT, ULONG, Flt, Int, boundary, conv_iv
from .expr import Gen, Var
from .prog import MON_H


class Consts:
    def __init__(self, r, n=10, depth=4, fp=0.0, addresses=True):
        self.r, self.n, self.depth, self.fp, self.addresses = r, n, depth, fp, addresses
        self.g = Gen(r, True, fp, 0.0, 0.0, 0.0)
        self.subst = {}
        self.decls, self.top, self.body = [], [], []
        self.uid = 0

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def leafs(self):
        """variables of every kind, each with a constant spelling of the same type and value"""
        r, g = self.r, self.g
        for i in range(r.choice([6, 10])):
            n = self.name("v")
            if self.fp and r.random() < 0.4:
                ty = r.choice(FLTS)
                e = g.flit(ty)
                while e.t.startswith("-"):
                    e = g.flit(ty)
                self.decls.append("static volatile %s %s = %s;" % (ty.name, n, e.t))
                g.vars.append(Var(n, ty, e.lo, e.hi))
                self.subst[n] = e.t if r.random() < 0.7 else "((%s)%s)" % (ty.name, e.t)
                continue
            ty = r.choice(INTS)
            v = boundary(r, ty)
            lit = g.lit(v)
            self.decls.append("static volatile %s %s = %s;" % (ty.name, n, lit.t))
            g.vars.append(Var(n, ty, v, v))
            if ty is INT and r.random() < 0.5:
                e = self.name("E")
                self.decls.append("enum { %s = %s };" % (e, lit.t))
                self.subst[n] = e
            else:
                self.subst[n] = "((%s)%s)" % (ty.name, g.par(lit, 14))
        for i in range(2):
            # sizes are constants, too
            n = self.name("v")
            ty = r.choice(INTS + FLTS)
            k = r.randrange(1, 20)
            a = self.name("a")
            self.decls.append("static %s %s[%d];" % (ty.name, a, k))
            self.decls.append("static volatile unsigned long %s = %d;" % (n, k * ty.size))
            g.vars.append(Var(n, ULONG, k * ty.size, k * ty.size))
            self.subst[n] = r.choice(["sizeof(%s)" % a, "sizeof %s" % a, "sizeof(%s[%d])" % (ty.name, k), "(sizeof(%s) * %d)" % (ty.name, k)])

    def const(self, t):
        return re.sub(r"\bv\d+\b", lambda m: self.subst[m.group(0)], t)

    def expr(self, fp=False, depth=None):
        """(expression on variables, its constant twin)"""
        g = self.g
        old = g.fp, g.vars
        if fp is False:
            g.fp, g.vars = 0.0, [v for v in g.vars if isinstance(v.ty, Int)]
        e = g.expr(depth if depth is not None else self.r.choice([1, 2, 3, self.depth]), eff=False, fp=fp)
        g.fp, g.vars = old
        return e

    # contexts ------------------------------------------------------------------------------------------------------------------
    def initializer(self):
        r, g = self.r, self.g
        ty = r.choice(INTS + (FLTS if self.fp else []))
        for _ in range(20):
            e = self.expr(None if self.fp else False)
            if conv_iv(e.lo, e.hi, e.ty, ty) is not None:
                break
        else:
            return
        c = self.const(e.t)
        if e.isint and r.random() < 0.04:
            c = "%s ? %s : 1 / 0" % (r.choice(["1", "2 > 1", "!0"]), "(%s)" % c)
        n = self.name("s")
        rec = ("ev_i" if ty.signed else "ev_u") if isinstance(ty, Int) else {"float": "ev_f", "double": "ev_d", "long double": "ev_ld"}[ty.name]
        k = r.random()
        vol = r.choice(["", "const ", "volatile "])
        if k < 0.35:
            self.top.append("%s%s%s %s = %s;" % (r.choice(["", "static "]), vol, ty.name, n, c))
            use = n
        elif k < 0.55:
            self.body.append("static %s%s %s = %s;" % (vol, ty.name, n, c))
            use = n
        elif k < 0.75:
            i, m = r.randrange(3), r.choice([3, 4])
            xs = [str(r.randrange(9)) for _ in range(m)]
            xs[i] = c
            self.top.append("static %s %s[] = { %s };" % (ty.name, n, ", ".join(xs)))
            use = "%s[%d]" % (n, i)
            self.body.append("ev_u(%d, sizeof(%s));" % (g.new_site(), n))
        else:
            if isinstance(ty, Int) and ty in (INT, UINT) and r.random() < 0.5:
                w = r.randrange(1, 33)
                if not ty.signed:
                    self.top.append("static struct { int a; %s f: %d; int b; } %s = { 1, %s, 2 };" % (ty.name, w, n, c))
                    self.body.append("ev_u(%d, %s.f);" % (g.new_site(), n))
                    self.body.append("{ struct { %s f: %d; } x; x.f = %s; ev_u(%d, x.f); }" % (ty.name, w, e.t, g.new_site()))
                    return
            self.top.append("static struct { char a; %s f; char b; } %s = { 1, %s, 2 };" % (ty.name, n, c))
            use = n + ".f"
        self.body.append("%s(%d, %s);" % (rec, g.new_site(), use))
        self.body.append("{ %s x = %s; %s(%d, x); }" % (ty.name, e.t, rec, g.new_site()))

    def exact(self):
        """the value and type of a whole expression, as a constant of the widest type and at run time"""
        r, g = self.r, self.g
        e = self.expr(None if self.fp else False)
        c = self.const(e.t)
        n = self.name("s")
        if e.isint:
            t = "long" if e.ty.signed else "unsigned long"
            self.top.append("static %s %s[3] = { %s, sizeof(%s), ((0 ? (%s) : -1) < 0) };" % (t, n, c, c, c))
            self.body.append("{ int i; for (i = 0; i < 3; i++) ev_u(%d, %s[i]); }" % (g.new_site(), n))
            self.body.append("ev_u(%d, %s); ev_u(%d, sizeof(%s)); ev_u(%d, (0 ? (%s) : -1) < 0);" % (g.new_site(), e.t, g.new_site(), e.t, g.new_site(), e.t))
        else:
            self.top.append("static long double %s = %s; static int %sz = sizeof(%s);" % (n, c, n, c))
            self.body.append("ev_ld(%d, %s); ev_i(%d, %sz); ev_ld(%d, %s); ev_i(%d, sizeof(%s));" % (g.new_site(), n, g.new_site(), n, g.new_site(), e.t, g.new_site(), e.t))

    def array(self):
        e = self.expr()
        m = self.r.choice([7, 15, 31])
        n = self.name("a")
        c = self.const("((%s) & %d) + 1" % (e.t, m))
        decl = self.r.choice(["static char %s[%s];", "static char %s[%s];", "typedef char %s[%s];", "struct s%s { char c[%s]; };"]) % (n, c)
        if self.r.random() < 0.5:
            self.top.append(decl)
        else:
            self.body.append(decl)
        self.body.append("ev_u(%d, sizeof(%s)); ev_u(%d, ((%s) & %d) + 1);" % (self.g.new_site(), "struct s" + n if decl.startswith("struct") else n, self.g.new_site(), e.t, m))

    def case(self):
        """the label matches exactly the run-time value converted to the promoted type of the controlling expression"""
        r, g = self.r, self.g
        labels, n = {}, self.name("w")
        ty = r.choice(INTS)
        pt = ty if ty.rank >= 3 else INT
        out = []
        for _ in range(r.choice([1, 2, 3])):
            e = self.expr()
            if e.lo is None or e.lo != e.hi:
                continue
            v = conv_iv(e.lo, e.hi, e.ty, pt)
            if v is None or v[0] in labels:
                continue
            labels[v[0]] = e
            out.append("case %s: ev_i(%d, 1); break;" % (self.const(e.t), g.new_site()))
        if not out:
            return
        out.insert(r.randrange(len(out) + 1), "default: ev_i(%d, 0); break;" % g.new_site())
        fn = self.name("f")
        self.top.append("static void %s(%s x) { switch (x) { %s } }" % (fn, ty.name, " ".join(out)))
        for e in labels.values():
            self.body.append("%s(%s);" % (fn, e.t))
            self.body.append("%s((%s) ^ %d);" % (fn, e.t, 1 << r.randrange(0, 40) % (e.ty.size * 8 if e.ty.rank >= 3 else 32)))
            self.body.append("%s(%s);" % (fn, self.const(e.t)))

    def enumerator(self):
        r, g = self.r, self.g
        for _ in range(20):
            e = self.expr()
            if e.lo is not None and e.lo == e.hi and INT.lo <= e.lo < INT.hi - 3:
                break
        else:
            return
        a, b = self.name("E"), self.name("E")
        (self.top if r.random() < 0.6 else self.body).append("enum { %s = %s, %s };" % (a, self.const(e.t), b))
        self.body.append("ev_i(%d, %s); ev_i(%d, %s); ev_i(%d, %s); ev_i(%d, sizeof(%s)); ev_i(%d, %s < -1);" % (
            g.new_site(), a, g.new_site(), b, g.new_site(), e.t, g.new_site(), a, g.new_site(), a))

    def width(self):
        g = self.g
        e = self.expr()
        c = self.const("((%s) & 7) + 1" % e.t)
        n = self.name("b")
        self.top.append("static struct { unsigned f: %s; unsigned g: %s; } %s;" % (c, self.r.choice(["3", "7", c]), n))
        self.body.append("%s.f = -1; ev_u(%d, %s.f); ev_m(%d, &%s, sizeof %s); ev_u(%d, (1u << ((%s) & 7) + 1) - 1);" % (n, g.new_site(), n, g.new_site(), n, n, g.new_site(), e.t))

    def unevaluated(self):
        """sizeof does not evaluate its operand"""
        r, g = self.r, self.g
        n = self.name("u")
        ty = r.choice(INTS + FLTS)
        self.decls.append("static %s %s = 5, *%sp, %sa[7]; static %s *%sf(int); static int %si;" % (ty.name, n, n, n, ty.name, n, n))
        self.top.append("static %s *%sf(int x) { ev_i(%d, x); %si++; return &%s; }" % (ty.name, n, g.new_site(), n, n))
        op = r.choice(["%s++", "++%s", "%s += 3", "%sp++", "*%sp", "*%sp++", "%sa[%si++]", "%sf(1)", "*%sf(%si++)", "%sf(1)[%si++]", "%sp->x", "%sa[3] = %si++", "&%sa", "&%sa[1000]", "*&%sa",
                       "tick(99, %si++)", "(%s++, 1)", "%si++ && %si++", "%si++ ? %s : *%sf(1)", "*%sp--", "(char)%s++", "-%si--", "1 / %si", "sizeof %s++"])
        op = op.replace("%s", n).replace(n + "p->x", n + "p[5]")
        if r.random() < 0.5:
            self.body.append("ev_u(%d, sizeof(%s));" % (g.new_site(), op))
        else:
            self.body.append("{ unsigned long z = sizeof(%s) * 2 + 1; ev_u(%d, z); }" % (op, g.new_site()))
        self.body.append("ev_i(%d, %si); ev_i(%d, %s == 5); ev_i(%d, %sp == 0);" % (g.new_site(), n, g.new_site(), n, g.new_site(), n))

    def address(self):
        """address constants name the same place as the same expression at run time"""
        r, g = self.r, self.g
        ty = r.choice(INTS + FLTS).name
        n = self.name("t")
        i, e = r.randrange(5), None
        for _ in range(10):
            x = self.expr(depth=2)
            if x.lo is not None and x.lo == x.hi and 0 <= x.lo <= 5:
                e = x
                break
        off, offc = (e.t, self.const(e.t)) if e and r.random() < 0.7 else (str(i),) * 2
        self.decls.append("static struct %s { char c; %s m[6]; struct { short h; %s k[3][4]; } in[2]; } %ss[3]; static %s %sa[6][5];" % (n, ty, ty, n, ty, n))
        j = r.randrange(3)
        forms = [("%s *" % ty, "&%ss[%d].m[@]" % (n, j)), ("%s *" % ty, "%ss[%d].m + (@)" % (n, j)), ("%s *" % ty, "(@) + %ss[%d].in[1].k[2]" % (n, j)), ("%s *" % ty, "&%sa[@][3]" % n),
                 ("%s (*)[5]" % ty, "%sa + (@)" % n), ("%s *" % ty, "%sa[@]" % n), ("%s *" % ty, "*(%sa + (@))" % n), ("%s *" % ty, "&%ss[2].m[5] - (@)" % n), ("char *", "(char *)&%ss[1] + (@)" % n),
                 ("struct %s *" % n, "&%ss[%d]" % (n, j)), ("%s *" % ty, "&(&%ss[1])->m[@]" % n), ("%s *" % ty, "&(%ss + %d)->in[0].k[1][@]" % (n, j)), ("%s *" % ty, "(%ss + 1)->m" % n),
                 ("%s *" % ty, "&(*(%ss + %d)).m[@]" % (n, j)), ("%s *" % ty, "(%s *)((char *)%ss[1].m + (@) * sizeof(%s))" % (ty, n, ty)), ("void *", "&%sa" % n), ("void *", "%sa + 1" % n),
                 ("struct %s *" % n, "%ss + %d" % (n, j)), ("%s *" % ty, "&*%ss[%d].m" % (n, j)), ("%s *" % ty, "1 ? &%ss[%d].m[@] : 0" % (n, j)), ("char *", "&%ss[%d].c" % (n, j)), ("%s *" % ty, "&(@)[%ss[0].m]" % n)]
        t, f = r.choice(forms)
        p = self.name("p")
        decl = t.replace("(*)", "(*%s)" % p) if "(*)" in t else t + p
        (self.top if r.random() < 0.7 else self.body).append("static %s = %s;" % (decl, f.replace("@", offc)))
        k = r.random()
        base = "(char *)%ss" % n if "%ss" % n in f else "(char *)%sa" % n
        self.body.append("ev_i(%d, (char *)%s - %s); ev_i(%d, (char *)(%s) - %s);" % (g.new_site(), p, base, g.new_site(), f.replace("@", off), base))
        if k < 0.4:
            # offsets as integer constants
            f = r.choice(["(unsigned long)&((struct %s *)0)->m[@]" % n, "(long)&((struct %s *)0)->in[1].k[@]" % n, "(unsigned long)&((struct %s *)0)->in" % n,
                          "(unsigned long)&(*(struct %s *)0).m[@]" % n, "(long)(&((struct %s *)0)[2].in[@].h)" % n])
            q = self.name("s")
            how = r.choice(["static long %s = %s;", "static long %s = %s;", "enum { %s = %s };"])
            if how.startswith("enum"):
                f = "(int)" + f
            self.top.append(how % (q, f.replace("@", offc)))
            self.body.append("ev_i(%d, %s); ev_i(%d, %s);" % (g.new_site(), q, g.new_site(), f.replace("@", off)))
        elif k < 0.6:
            f = r.choice(["&%ss[2].m[@] - &%ss[2].m[1]" % (n, n), "&%ss[@ & 1] - %ss" % (n, n), "&%sa[@] - %sa" % (n, n), "%sa[3] - &%sa[3][@]" % (n, n), "&%ss[0].in[1].k[@ & 1][3] - %ss[0].in[1].k[@ & 1]" % (n, n)])
            q = self.name("s")
            self.top.append("static long %s = %s;" % (q, f.replace("@", "(%s)" % offc)))
            self.body.append("ev_i(%d, %s); ev_i(%d, %s);" % (g.new_site(), q, g.new_site(), f.replace("@", "(%s)" % off)))
        elif k < 0.8:
            q = self.name("s")
            s = "".join(r.choice("abcdefg\\") for _ in range(6)).replace("\\", "\\n")
            f = r.choice(["\"%s\" + (%s)", "&\"%s\"[%s]", "(char *)\"%s\" + (%s)"]) % (s, offc)
            self.top.append("static char *%s = %s;" % (q, f))
            self.body.append("ev_s(%d, %s); ev_s(%d, \"%s\" + (%s));" % (g.new_site(), q, g.new_site(), s, off))

    def build(self):
        r = self.r
        self.leafs()
        kinds = [self.initializer] * 4 + [self.exact] * 4 + [self.array] * 2 + [self.case] * 3 + [self.enumerator] * 2 + [self.width, self.unevaluated, self.unevaluated]
        if self.addresses:
            kinds += [self.address] * 3
        chunks = []
        for _ in range(self.n):
            r.choice(kinds)()
            if self.body and (r.random() < 0.3):
                chunks.append(self.body)
                self.body = []
        chunks.append(self.body)
        out = [MON_H, *self.decls, *self.top]
        for i, c in enumerate(chunks):
            out.append("static void t%d(void) {" % i)
            depth = 0
            for x in c:
                if re.match(r"(static|enum|typedef|struct) ", x):
                    out.append("  {")
                    depth += 1
                out.append("  " + x)
            out.append("  " + "}" * depth)
            out.append("}")
        out.append("int main(void) { %s return 0; }" % " ".join("t%d();" % i for i in range(len(chunks))))
        return "\n".join(out) + "\n"
