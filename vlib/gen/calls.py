"""Programs of two translation units whose functions call each other (C08) and variadic functions (C09)."""
from .agg import *

PTRT = [Ptr(INT), Ptr(CHAR), Ptr(DOUBLE)]


class Fn:
    def __init__(self, name, ret, params, unit):
        self.name, self.ret, self.params, self.unit = name, ret, params, unit
        self.static = False
        self.knr = False


class Calls:
    def __init__(self, rng, nfn=8, narrow=True, pure_scalar=False):
        self.r = r = rng
        self.a = Agg(r, bitfields=r.choice([0, 0, 0.3]), packed=0, unions=r.choice([0, 0.15]), ptrs=0.05, fp=r.choice([0.1, 0.4, 0.8]),
                     anon=r.choice([0, 0.1]), maxmem=r.choice([2, 3, 4]), depth=r.choice([0, 1, 1, 2]), arrays=r.choice([0.1, 0.3]), unnamed=0)    # compilers classify unnamed bit-fields differently
        self.nfn = nfn
        # clang relies on char and short arguments being extended to int, which the ABI does not demand
        self.ints = INTS if narrow else [t for t in INTS if t.size > 2]
        self.site = 0
        if not pure_scalar:
            for _ in range(r.randrange(2, 6)):
                self.a.struct()
        self.types = [t for t in self.a.types if t.weight <= 12]
        self.head, self.units = [], [[], []]
        self.uid = 0

    def nxt(self, n=1):
        self.site += n
        return self.site - n

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def ty(self, void=False):
        r = self.r
        k = r.random()
        if void and k < 0.1:
            return VOID
        if self.types and k < 0.4:
            return r.choice(self.types)
        if k < 0.7:
            return r.choice(self.ints + [INT, LONG])
        if k < 0.92:
            return r.choice(FLTS + [DOUBLE, FLOAT])
        return r.choice(PTRT)

    # values: expressions of a type made of an int expression k ------------------
    def make(self, ty, k):
        r = self.r
        if isinstance(ty, SU):
            return "mk_%s(%s)" % (ty.tag, k)
        if isinstance(ty, Ptr):
            n = PTRS[ty.to.name]
            return "&%s[(%s) & 7]" % (n, k)
        if isinstance(ty, Flt):
            return "(%s) ((%s) * 0.25%s + %d)" % (ty.name, k, r.choice(["", "f", "L"]), r.randrange(-50, 50))
        m = r.choice([1, 3, 0x7f, 0xff, 0x101, 0x8001, 0x1000001, 0x100000001, 0x7fffffffffff])
        return "(%s) ((%s) * %sL + %d)" % (ty.name, k, hex(m), r.randrange(-300, 300))

    def small(self, ty, k):
        """like make, but exactly convertible to any arithmetic type of the same kind"""
        return "(%s) ((%s) & 63)" % (ty.name, k)

    def rec(self, ty, e, lines):
        if isinstance(ty, SU):
            n = len(self.a.leaves(ty, "", True))
            lines.append("ob_%s(%d, &%s);" % (ty.tag, self.nxt(n), e))
        else:
            lines.append(self.a.ev(self.nxt(), ty, e))

    def helpers(self):
        out = []
        for t in self.types:
            out.append(self.a.observer(t, "ob_%s" % t.tag, True))
            ls = self.a.leaves(t, "", True)
            b = ["    %s;" % decl(t, "x"), "    zero(&x, sizeof x);"]
            for i, l in enumerate(ls):
                if isinstance(l.ty, StrPtr):
                    v = "pool_s[(k + %d) & 3]" % i
                elif isinstance(l.ty, FnPtr):
                    v = "(k & 1) ? fn0 : fn1"
                elif l.bits is not None:
                    v = "(k * %d + %d) & %d" % (2 * i + 3, i, (1 << (l.bits - (1 if l.ty.signed and l.bits > 1 else 0))) - 1)
                    if l.ty.signed and l.bits == 1:
                        v = "-(k & 1)"
                else:
                    v = self.make(l.ty, "k + %d" % i)
                b.append("    x%s = %s;" % (l.path, v))
            out.append("static %s(int k) {\n%s\n    return x;\n}" % (decl(t, "mk_%s" % t.tag), "\n".join(b)))
        return out

    # ----------------------------------------------------------------------------
    def proto(self, f, names=True):
        ps = [decl(t, "p%d" % i if names else "") for i, t in enumerate(f.params)]
        if names and self.r.random() < 0.2:
            for i, t in enumerate(f.params):
                if isinstance(t, Ptr) and isinstance(t.to, (Int, Flt)):
                    ps[i] = decl(Arr(t.to, self.r.choice([None, 5])), "p%d" % i)
        return decl_fn(f.ret, f.name, ", ".join(ps) or "void")

    def arg(self, ty, f, vars_, k, depth):
        """an argument expression for a parameter of type ty (no recorded events)"""
        r = self.r
        ch = r.randrange(12)
        vs = [n for n, t in vars_ if t is ty]
        if isinstance(ty, SU):
            if vs and ch < 5:
                return r.choice(vs)
            qs = [g for g in f.callees if g.ret is ty and g.quiet]
            if qs and ch < 9 and depth > 0:
                return self.call(r.choice(qs), f, vars_, k, depth - 1)
            if ch == 9:
                return "gl_%s" % ty.tag
            if ch == 10:
                return "*(&ga_%s[1])" % ty.tag
            return "mk_%s(%s)" % (ty.tag, k)
        if isinstance(ty, Ptr):
            return r.choice(vs) if vs and ch < 5 else self.make(ty, k)
        if vs and ch < 4:
            return r.choice(vs)
        if ch < 6:
            qs = [g for g in f.callees if g.ret is ty and g.quiet]
            if qs and depth > 0:
                return self.call(r.choice(qs), f, vars_, k, depth - 1)
        if ch < 8:
            # the prototype converts
            o = r.choice(INTS + FLTS)
            return self.small(o, k)
        if ch == 8:
            return str(r.randrange(0, 100))
        if ch == 9:
            for _ in range(5):
                if not self.types:
                    break
                t = r.choice(self.types)
                ls = [l for l in self.a.leaves(t, "", True) if l.ty is ty]
                if ls:
                    e = "gl_%s%s" % (t.tag, r.choice(ls).path)
                    return e
        if ch == 10 and isinstance(ty, Int):
            return "%s + (%s & 1)" % (self.small(ty, k), k)
        if ch == 11:
            return "(%s & 2) ? %s : %s" % (k, self.make(ty, k), self.make(ty, k))
        return self.make(ty, k)

    def call(self, g, f, vars_, k, depth=1):
        r = self.r
        args = [self.arg(t, f, vars_, "(%s + %d)" % (k, r.randrange(50)), depth) for t in g.params]
        fn = g.name
        c = r.randrange(8)
        if c == 0:
            fn = "(*%s)" % fn
        elif c == 1:
            fn = "fp_%s" % g.name
        elif c == 2:
            fn = "(*ops.f_%s)" % g.name
        elif c == 3:
            fn = "ops.f_%s" % g.name
        if g.static and c in (1, 2, 3):
            fn = g.name
        return "%s(%s)" % (fn, ", ".join(args))

    def body(self, f):
        r = self.r
        L = []
        vars_ = [("p%d" % i, t) for i, t in enumerate(f.params)]
        decls = ["int k = %d;" % r.randrange(1, 1000)]
        hs = ["k"]
        for i, t in enumerate(f.params):
            if isinstance(t, Int) and r.random() < 0.8:
                hs.append("(int) (p%d & 1023)" % i)
            elif isinstance(t, Flt) and r.random() < 0.3:
                hs.append("(p%d > 3)" % i)
        if f.quiet:
            L.append("k = (%s) & 4095;" % " + ".join(hs))
            if f.ret is VOID:
                L.append("return;")
            else:
                same = [n for n, t in vars_ if t is f.ret]
                L.append("return %s;" % (r.choice(same) if same and r.random() < 0.6 else self.make(f.ret, "k")))
            return decls, L
        for n, t in vars_:
            self.rec(t, n, L)
        L.append("k = (%s) & 4095;" % " + ".join(hs))
        # change parameters, call others, look at everything again
        for n, t in list(vars_):
            if r.random() < 0.3:
                L.append("%s = %s;" % (n, self.make(t, "k + %d" % r.randrange(20))))
        ncall = 0
        for _ in range(r.randrange(0, 4)):
            if not f.callees or f.cost > 60:
                break
            g = r.choice(f.callees)
            if f.cost + g.cost > 120:
                continue
            f.cost += g.cost
            c = self.call(g, f, vars_, "k")
            if g.ret is VOID:
                L.append(c + ";")
                continue
            form = r.randrange(5)
            if isinstance(g.ret, SU) and form == 0:
                ls = [l for l in self.a.leaves(g.ret, "", True) if not isinstance(l.ty, Ptr) and "[" not in l.path]
                if ls and not f.nomember:
                    l = r.choice(ls)
                    L.append(self.a.ev(self.nxt(), l.ty, "%s%s" % (c, l.path)))
                    continue
            if form == 1:
                L.append("%s;" % c if r.random() < 0.5 else "(void) %s;" % c)
                continue
            if form == 2 and not isinstance(g.ret, (SU, Ptr)):
                L.append(self.a.ev(self.nxt(), g.ret, c))
                continue
            if form == 3 and isinstance(g.ret, SU):
                L.append("ga_%s[k & 1] = %s; " % (g.ret.tag, c))
                self.rec(g.ret, "ga_%s[k & 1]" % g.ret.tag, L)
                continue
            v = self.name("v")
            decls.append(decl(g.ret, v) + ";")
            L.append("%s = %s;" % (v, c))
            self.rec(g.ret, v, L)
            vars_.append((v, g.ret))
        for n, t in vars_:
            if r.random() < 0.5:
                self.rec(t, n, L)
        if f.ret is not VOID:
            same = [n for n, t in vars_ if t is f.ret]
            c = r.randrange(6)
            if same and c < 3:
                e = r.choice(same)
            elif isinstance(f.ret, SU) and c == 3:
                e = r.choice(["gl_%s", "ga_%s[1]", "*(&gl_%s)"]) % f.ret.tag
            elif same and c == 4:
                e = "k > 7 ? %s : %s" % (r.choice(same), r.choice(same)) if not isinstance(f.ret, SU) else r.choice(same)
            elif isinstance(f.ret, (Int, Flt)) and c == 5:
                e = self.small(r.choice(INTS + FLTS), "k")
            else:
                e = self.make(f.ret, "k")
            L.append("return %s;" % e)
        return decls, L

    def build(self):
        r = self.r
        fns = []
        for i in range(self.nfn):
            n = r.choice([0, 1, 2, 3, 5, 7, 9, 12, 16])
            f = Fn("f%d" % i, self.ty(True), [self.ty() for _ in range(n)], r.randrange(2))
            f.quiet = r.random() < 0.3
            f.cost = 1
            f.nomember = False
            f.callees = [g for g in fns if g.unit != f.unit or not g.static or True]
            f.static = False
            fns.append(f)
        for f in fns:
            decls, L = self.body(f)
            sig = self.proto(f)
            if r.random() < 0.12 and f.params:      # old-style definition: promoted parameter types only
                if all(isinstance(t, (SU, Ptr)) or t in (INT, LONG, UINT, ULONG, DOUBLE, LDOUBLE) for t in f.params):
                    sig = decl_fn(f.ret, f.name, ", ".join("p%d" % i for i in range(len(f.params)))) + " " + \
                        " ".join(decl(t, "p%d" % i) + ";" for i, t in enumerate(f.params)) if KNR else sig
            self.units[f.unit].append("%s {\n    %s\n    %s\n}" % (sig, "\n    ".join(decls), "\n    ".join(L)))
        main = Fn("main", INT, [], 0)
        main.callees, main.cost, main.nomember = fns, 0, False
        L = []
        decls = ["int k = 5;"]
        for t in self.types:
            L.append("gl_%s = mk_%s(11); ga_%s[0] = mk_%s(12); ga_%s[1] = mk_%s(13);" % ((t.tag,) * 6))
        for f in fns:
            v = self.name("v")
            c = self.call(f, main, [], "k")
            if f.ret is VOID:
                L.append("%s;" % c)
            else:
                decls.append(decl(f.ret, v) + ";")
                L.append("%s = %s;" % (v, c))
                self.rec(f.ret, v, L)
        mainf = "int main(void) {\n    %s\n    %s\n    return 0;\n}" % ("\n    ".join(decls), "\n    ".join(L))
        pool = "int pool_i[16]; char pool_c[32]; double pool_d[8]; void *pool_v[4];\n"
        ext = "extern int pool_i[]; extern char pool_c[]; extern double pool_d[];\n"
        head = [MON_H, "static int fn0(void) { return 10; } static int fn1(void) { return 11; }", "static char *pool_s[4] = {\"a\", \"bc\", \"\", \"defghijkl\"};",
                "static void zero(void *p, unsigned long n) { char *c = p; while (n--) *c++ = 0; }"]
        head += self.a.defs
        for f in fns:
            head.append(self.proto(f, r.random() < 0.5) + ";")
        head.append("struct Ops { %s };" % " ".join(decl(Ptr(Func(f.ret, f.params)), "f_" + f.name) + ";" for f in fns))
        for f in fns:
            head.append("static %s = %s;" % (decl(Ptr(Func(f.ret, f.params)), "fp_" + f.name), f.name))
        head.append("static struct Ops ops = { %s };" % ", ".join(f.name for f in fns))
        for t in self.types:
            head.append("static %s, ga_%s[2];" % (decl(t, "gl_" + t.tag), t.tag))
        head += self.helpers()
        head = "\n".join(head) + "\n"
        return [("a.c", pool + head + "\n".join(self.units[0]) + "\n" + mainf + "\n"), ("b.c", ext + head + "\n".join(self.units[1]) + "\n")]


KNR = False


def decl_fn(ret, name, params):
    if isinstance(ret, Ptr) and isinstance(ret.to, (Arr, Func)):
        raise ValueError
    return "%s(%s)" % (decl(ret, name), params)
