"""Programs of two translation units with variadic functions (C09)."""
from .calls import *

CODES = "ABCDEFGHIJKLMNOP"


class VF:
    pass


class VarCalls(Calls):
    def __init__(self, rng, nfn=4, narrow=True, pure_scalar=False, structs=True):
        Calls.__init__(self, rng, nfn, narrow, pure_scalar)
        if not structs:
            self.types = []
        self.codes = {"i": INT, "u": UINT, "l": LONG, "m": ULONG, "d": DOUBLE, "e": DOUBLE, "D": LDOUBLE, "p": PTRT[0], "c": PTRT[1]}
        for c, t in zip(CODES, self.types):
            self.codes[c] = t
        self.al = False

    def seq(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 5, 7, 9, 12, 15, 20])
        k = r.random()
        if k < 0.25:
            pool = r.sample(sorted(self.codes), min(2, len(self.codes)))
        elif k < 0.4:
            pool = "dDe" + "".join(c for c in self.codes if c in CODES)
        elif k < 0.5:
            pool = "ilpc" + "".join(c for c in self.codes if c in CODES)
        else:
            pool = sorted(self.codes)
        return [r.choice(pool) for _ in range(n)]

    def varg(self, c, k):
        """an argument retrieved as the type of code c"""
        r = self.r
        t = self.codes[c]
        if t is INT:
            o = r.choice([INT, INT, INT, CHAR, SHORT, UCHAR, USHORT])
            return self.make(o, k)
        if t is DOUBLE:
            return self.make(r.choice([DOUBLE, DOUBLE, FLOAT]), k)
        if isinstance(t, SU):
            return r.choice(["mk_%s(%s)" % (t.tag, k), "mk_%s(%s)" % (t.tag, k), "gl_%s" % t.tag, "ga_%s[%s & 1]" % (t.tag, k)])
        return self.make(t, k)

    def vcall(self, f, k, fn=None):
        r = self.r
        n = r.choice([0, 1, 2, 4, 6, 8, 10, 14, 20]) if f.seq is None else 0
        seq = self.seq(n) if f.seq is None else f.seq
        args = []
        for i, t in enumerate(f.params):
            if i == f.fmt:
                args.append('"%s"' % "".join(seq))
            else:
                args.append(self.arg(t, f, [], "(%s + %d)" % (k, r.randrange(50)), 0) if not isinstance(t, SU) else self.make(t, k))
        for c in seq:
            args.append(self.varg(c, "(%s + %d)" % (k, r.randrange(90))))
        c = r.randrange(6)
        fn = fn or f.name
        if c == 0:
            fn = "fp_" + fn
        elif c == 1:
            fn = "(*fp_%s)" % fn
        return "%s(%s)" % (fn, ", ".join(args))

    def one(self, c, ap, site, L, decls):
        """statements reading one argument in some way"""
        r = self.r
        t = self.codes[c]
        ty = decl(t, "").strip()
        va = "va_arg(%s, %s)" % (ap, ty)
        if isinstance(t, SU):
            v = self.name("v")
            decls.append(decl(t, v) + ";")
            if r.random() < 0.25:
                decls.append(decl(Ptr(t), "q" + v) + " = &%s;" % v)
                L.append("*q%s = %s; ob_%s(%s, &%s);" % (v, va, t.tag, site, v))
            else:
                L.append("%s = %s; ob_%s(%s, &%s);" % (v, va, t.tag, site, v))
            return
        k = r.randrange(4)
        if k == 0 and isinstance(t, (Int, Flt)):
            L.append(self.a.ev("%s" % site, t, va))
        elif k == 1 and isinstance(t, (Int, Flt)):
            L.append(self.a.ev("%s" % site, t, "%s + 1" % va))
        else:
            v = self.name("v")
            decls.append(decl(t, v) + ";")
            L.append("%s = %s;" % (v, va))
            L.append(self.a.ev("%s" % site, t, v))

    def loop(self, ap, fmt, L, decls):
        base = self.site
        s = self.name("i")
        decls.append("int %s = 0;" % s)
        L.append("while (*%s) {" % fmt)
        L.append("switch (*%s++) {" % fmt)
        for c, t in self.codes.items():
            b = []
            self.one(c, ap, "%d + %s" % (base, s), b, decls)
            L.append("case '%s': %s break;" % (c, " ".join(b)))
        L.append("}")
        L.append("%s += 16;" % s)
        L.append("}")
        self.site += 16 * 32

    def vbody(self, f):
        r = self.r
        L, decls = [], ["va_list ap;", "int k = %d;" % r.randrange(1, 100)]
        last = "p%d" % (len(f.params) - 1)
        pre = []
        for i, t in enumerate(f.params):
            if i != f.fmt and r.random() < 0.7:
                self.rec(t, "p%d" % i, pre)
        if r.random() < 0.5:
            L += pre
            pre = []
        L.append("va_start(ap, %s);" % last)
        if r.random() < 0.2:
            L.append("va_end(ap); va_start(ap, %s);" % last)
        st = f.style
        if f.seq is not None:
            if st == "copy":
                decls.append("va_list aq;")
            at = r.randrange(len(f.seq) + 1)
            for i, c in enumerate(f.seq):
                if st == "copy" and i == at:
                    L.append("va_copy(aq, ap);")
                if r.random() < 0.1:
                    L.append("k += tick(%d, 3);" % self.nxt())
                n = len(self.a.leaves(self.codes[c], "", True)) if isinstance(self.codes[c], SU) else 1
                self.one(c, "ap", str(self.nxt(n)), L, decls)
            if st == "copy":
                if at == len(f.seq):
                    L.append("va_copy(aq, ap);")
                for c in f.seq[at:]:
                    n = len(self.a.leaves(self.codes[c], "", True)) if isinstance(self.codes[c], SU) else 1
                    self.one(c, "aq", str(self.nxt(n)), L, decls)
                L.append("va_end(aq);")
        elif st == "helper":
            L.append("%s(p%d, ap);" % (f.helper, f.fmt))
        elif st == "helper2":
            # twice: through a copy, then the original
            decls.append("va_list aq;")
            L.append("va_copy(aq, ap); %s(p%d, aq); va_end(aq);" % (f.helper, f.fmt))
            L.append("%s(p%d, ap);" % (f.helper, f.fmt))
        else:
            decls.append("char *fm = p%d;" % f.fmt)
            self.loop("ap", "fm", L, decls)
        L.append("va_end(ap);")
        L += pre
        if f.ret is not VOID:
            L.append("return %s;" % self.make(f.ret, "k"))
        return decls, L

    def printf_call(self):
        r = self.r
        n = r.randrange(1, 12)
        fs, args = [], []
        for _ in range(n):
            k = "(k + %d)" % r.randrange(90)
            c = r.randrange(9)
            if c == 0:
                fs.append("%d"), args.append(self.make(r.choice([INT, CHAR, SHORT, UCHAR]), k))
            elif c == 1:
                fs.append("%ld"), args.append(self.make(LONG, k))
            elif c == 2:
                fs.append("%s"), args.append("pool_s[%s & 3]" % k)
            elif c == 3:
                fs.append("%c"), args.append("(%s & 15) + 'a'" % k)
            elif c == 4:
                fs.append("%u"), args.append(self.make(UINT, k))
            elif c == 5:
                fs.append("%lx"), args.append(self.make(ULONG, k))
            elif c == 6:
                fs.append(r.choice(["%.3f", "%g", "%e"])), args.append(self.make(r.choice([DOUBLE, FLOAT]), k))
            elif c == 7:
                fs.append(r.choice(["%.3Lf", "%Lg"])), args.append(self.make(LDOUBLE, k))
            else:
                fs.append("%*d"), args.append("5, " + self.make(INT, k))
        return '"%s"' % " ".join(fs), args

    def build(self):
        r = self.r
        fns = []
        units = [[], []]
        helpers = []
        for u in (0, 1):
            name = "vh%d" % u
            L, decls = [], []
            self.loop("ap", "fm", L, decls)
            units[u].append("void %s(char *fm, va_list ap) {\n    %s\n    %s\n}" % (name, "\n    ".join(decls), "\n    ".join(L)))
            helpers.append(name)
        for i in range(self.nfn):
            f = VF()
            f.name, f.ret, f.unit = "f%d" % i, self.ty(True), r.randrange(2)
            nfix = r.choice([1, 1, 2, 3, 5, 6, 7, 9, 12])
            f.params = [self.ty() for _ in range(nfix)]
            f.callees = []
            f.style = r.choice(["loop", "loop", "helper", "helper2", "seq", "seq", "copy"])
            f.helper = r.choice(helpers)
            f.seq, f.fmt = None, None
            if f.style in ("seq", "copy"):
                f.seq = self.seq()
                if r.random() < 0.5:
                    f.params[-1] = r.choice([INT, LONG, DOUBLE, PTRT[0], UINT, LDOUBLE] + self.types)
                else:
                    f.params[-1] = r.choice([INT, LONG])
            else:
                f.fmt = r.randrange(nfix)
                f.params[f.fmt] = PTRT[1]
                if f.fmt != nfix - 1:
                    f.params[-1] = r.choice([INT, LONG, DOUBLE, PTRT[0]])
            fns.append(f)
        for f in fns:
            decls, L = self.vbody(f)
            sig = decl_fn(f.ret, f.name, ", ".join(decl(t, "p%d" % i) for i, t in enumerate(f.params)) + ", ...")
            units[f.unit].append("%s {\n    %s\n    %s\n}" % (sig, "\n    ".join(decls), "\n    ".join(L)))
        for u in (0, 1):
            L, decls = [], []
            for i in range(r.randrange(3, 9)):
                f = r.choice(fns)
                c = self.vcall(f, "k")
                if f.ret is VOID or r.random() < 0.3:
                    L.append(c + ";")
                else:
                    v = self.name("v")
                    decls.append(decl(f.ret, v) + ";")
                    L.append("%s = %s;" % (v, c))
                    self.rec(f.ret, v, L)
                if r.random() < 0.4:
                    fs, args = self.printf_call()
                    L.append("ev_i(%d, sprintf(buf, %s)); ev_s(%d, buf);" % (self.nxt(), ", ".join([fs] + args), self.nxt()))
                if r.random() < 0.3:
                    fs, args = self.printf_call()
                    L.append("ev_i(%d, fmtbuf(buf, %s)); ev_s(%d, buf);" % (self.nxt(), ", ".join([fs] + args), self.nxt()))
                if self.al and r.random() < 0.8:
                    n = r.choice([0, 0, 1, 2, 3, 5, 7, 8, 9, 12])
                    args = [self.varg("d", "(k + %d)" % r.randrange(50)) for _ in range(n)]
                    for _ in range(r.randrange(4)):
                        args.insert(r.randrange(len(args) + 1), self.varg("l", "(k + 1)"))
                    L.append("ev_i(%d, %s(%s));" % (self.nxt(), r.choice(["probe_al", "(*fp_probe)"]), ", ".join([str(n)] + args)))
            units[u].append("void caller%d(int k) {\n    char buf[4000];\n    %s\n    %s\n}" % (u, "\n    ".join(decls), "\n    ".join(L)))
        init = []
        for t in self.types:
            init.append("gl_%s = mk_%s(11); ga_%s[0] = mk_%s(12); ga_%s[1] = mk_%s(13);" % ((t.tag,) * 6))
        for u in (0, 1):
            units[u].append("void init%d(void) { %s }" % (u, " ".join(init)))
        mainf = "int main(void) { init0(); init1(); caller0(%d); caller1(%d); return 0; }" % (r.randrange(100), r.randrange(100))
        pool = "int pool_i[16]; char pool_c[32]; double pool_d[8]; void *pool_v[4];\n"
        ext = "extern int pool_i[]; extern char pool_c[]; extern double pool_d[];\n"
        head = ["#include <stdarg.h>", MON_H, "static int fn0(void) { return 10; } static int fn1(void) { return 11; }",
                "static char *pool_s[4] = {\"a\", \"bc\", \"\", \"defghijkl\"};",
                "static void zero(void *p, unsigned long n) { char *c = p; while (n--) *c++ = 0; }",
                "int sprintf(char *, const char *, ...); int vsprintf(char *, const char *, va_list);",
                "static int fmtbuf(char *b, char *f, ...) { va_list ap; int n; va_start(ap, f); n = vsprintf(b, f, ap); va_end(ap); return n; }",
                "void vh0(char *, va_list); void vh1(char *, va_list); void caller0(int); void caller1(int); void init0(void); void init1(void);"]
        if self.al:
            head.append("int probe_al(int, ...); static int (*fp_probe)(int, ...) = probe_al;")
        head += self.a.defs
        for f in fns:
            ps = ", ".join(decl(t, "") for t in f.params) + ", ..."
            head.append(decl_fn(f.ret, f.name, ps) + ";")
            head.append("static %s = %s;" % (decl(Ptr(Func(f.ret, f.params)), "fp_" + f.name).replace(")(", ")(", 1).rstrip()[:-1] + ", ...)", f.name))
        for t in self.types:
            head.append("static %s, ga_%s[2];" % (decl(t, "gl_" + t.tag), t.tag))
        head += self.helpers()
        head = "\n".join(head) + "\n"
        return [("a.c", pool + head + "\n".join(units[0]) + "\n" + mainf + "\n"), ("b.c", ext + head + "\n".join(units[1]) + "\n")]
