"""Programs of several translation units that share objects and functions in every way linkage allows (C12)."""
from .core import FLTS, INTS, Int, boundary
from .prog import MON_H

STRUCT = "struct %s { char c; %s; };\n"


class Obj:
    def __init__(self, name, ty, shape, n=0):
        self.name, self.ty, self.shape, self.n = name, ty, shape, n
        self.home = None            # unit that defines it; None if tentative everywhere
        self.tent = set()           # units with tentative definitions
        self.init = None

    def decl(self, open_array=False):
        if self.shape == "array":
            return "%s %s[%s]" % (self.ty, self.name, "" if open_array else self.n)
        if self.shape == "array2":
            return "%s %s[%s][3]" % (self.ty, self.name, "" if open_array else self.n)
        if self.shape == "ptr":
            return "%s *%s" % (self.ty, self.name)
        if self.shape == "fptr":
            return "%s (*%s)(%s)" % (self.ty, self.name, self.ty)
        if self.shape == "ftab":
            return "%s (*%s[%s])(%s)" % (self.ty, self.name, "" if open_array else self.n, self.ty)
        if self.shape == "struct":
            return "struct %s %s" % (self.ty, self.name)
        return "%s %s" % (self.ty, self.name)


class Fn:
    def __init__(self, name, ret, par, home, static=False):
        self.name, self.ret, self.par, self.home, self.static = name, ret, par, home, static
        self.index = 0
        self.asm = ""

    def proto(self, names=False):
        return "%s %s(%s%s)" % (self.ret, self.name, self.par, " a" if names else "")


class Units:
    def __init__(self, r, units=3, nobj=8, nfn=8, twice=()):
        """twice: units among which the same global function is defined a second time (interposition)"""
        self.r, self.units, self.nobj, self.nfn = r, units, nobj, nfn
        self.site = 0
        self.uid = 0
        self.objs, self.fns = [], []
        self.structs = {}
        self.fp = [t.name for t in FLTS]
        self.tn = {t.name: t for t in INTS + FLTS}

    def s(self):
        self.site += 1
        return self.site

    def nm(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def value(self, ty):
        if ty in self.fp:
            return "%d.%d" % (self.r.randrange(100), self.r.choice([0, 5, 25]))
        v = boundary(self.r, self.tn[ty]) if self.r.random() < 0.5 else self.r.randrange(100)
        return str(v) + ("u" if v > 2 ** 63 - 1 else "") if v > -2 ** 63 else "(-9223372036854775807 - 1)"

    def ty(self):
        r = self.r
        return r.choice(FLTS).name if r.random() < 0.2 else r.choice(INTS).name

    def ev(self, ty, e):
        if ty in self.fp:
            return "%s(%d, %s);" % ({"float": "ev_f", "double": "ev_d", "long double": "ev_ld"}[ty], self.s(), e)
        return "ev_%s(%d, %s);" % ("i" if self.tn[ty].signed else "u", self.s(), e)

    # entities ------------------------------------------------------------------------------------------------------------------
    def mk_fns(self):
        r = self.r
        for i in range(self.nfn):
            t = self.ty()
            f = Fn(self.nm("fn"), t if r.random() < 0.7 else self.ty(), t, r.randrange(self.units), r.random() < 0.25)
            f.index = i
            if not f.static and r.random() < 0.12:
                f.asm = ' __asm__("renamed_%s")' % f.name
            self.fns.append(f)
        for i in range(2):
            # the same name static in several units
            n = self.nm("sf")
            home = r.sample(range(self.units), min(self.units, r.choice([2, 3])))
            glob = r.choice(home) if r.random() < 0.4 else None
            for u in home:
                t = self.ty()
                f = Fn(n, t, t, u, u != glob)
                f.index = len(self.fns)
                self.fns.append(f)

    def visible_fns(self, u, below=None):
        own = {f.name for f in self.fns if f.home == u}
        return [f for f in self.fns if (below is None or f.index < below) and (f.home == u or (not f.static and f.name not in own))]

    def mk_objs(self):
        r = self.r
        for i in range(self.nobj):
            shape = r.choice(["scalar", "scalar", "scalar", "array", "array", "array2", "struct", "ptr", "fptr", "ftab"])
            t = self.ty()
            n = self.nm("ob")
            o = Obj(n, t, shape, r.randrange(2, 6))
            if shape == "struct":
                o.ty = self.nm("S")
                self.structs[o.ty] = [(self.ty(), "m%d" % k) for k in range(r.choice([1, 2, 4]))]
            if shape in ("fptr", "ftab"):
                f = [f for f in self.fns if not f.static and f.ret == f.par]
                if not f:
                    o.shape = "scalar"
                else:
                    o.ty = r.choice(f).ret
            k = r.random()
            if k < 0.35 and o.shape in ("scalar", "array", "array2", "struct", "ptr"):
                # tentative definitions, perhaps in several units, perhaps with a real one
                o.tent = set(r.sample(range(self.units), r.randrange(1, self.units + 1)))
                if r.random() < 0.4:
                    o.home = r.randrange(self.units)
            else:
                o.home = r.randrange(self.units)
            self.objs.append(o)
        self.statics = {}
        for u in range(self.units):
            self.statics[u] = []
        for i in range(r.choice([1, 2, 3])):
            # the same name with internal linkage in some units, and perhaps external linkage in the others
            n = self.nm("st")
            us = r.sample(range(self.units), r.randrange(1, self.units + 1))
            for u in us:
                o = Obj(n, self.ty(), r.choice(["scalar", "array"]), r.randrange(2, 6))
                o.home, o.static = u, True
                self.statics[u].append(o)
            rest = [u for u in range(self.units) if u not in us]
            if rest and r.random() < 0.6:
                o = Obj(n, self.ty(), "scalar")
                o.home = r.choice(rest)
                self.objs.append(o)

    def visible(self, u):
        own = {o.name for o in self.statics[u]}
        return self.statics[u] + [o for o in self.objs if o.name not in own]

    def initializer(self, o, u):
        """an initializer for o, defined in unit u, and whether it needs declarations of other things"""
        r = self.r
        if o.shape == "scalar":
            return self.value(o.ty)
        if o.shape == "array":
            return "{ %s }" % ", ".join(self.value(o.ty) for _ in range(r.randrange(1, o.n + 1)))
        if o.shape == "array2":
            return "{ %s }" % ", ".join("{ %s }" % ", ".join(self.value(o.ty) for _ in range(3)) for _ in range(r.randrange(1, o.n + 1)))
        if o.shape == "struct":
            return "{ %s }" % ", ".join(["'%s'" % r.choice("abc")] + [self.value(t) for t, m in self.structs[o.ty]])
        if o.shape == "ptr":
            return self.address(o.ty, u) or "0"
        f = [f for f in self.visible_fns(u) if f.ret == f.par == o.ty]
        if not f:
            return "0" if o.shape == "fptr" else "{ 0 }"
        one = lambda: r.choice(["", "&"]) + r.choice(f).name
        return one() if o.shape == "fptr" else "{ %s }" % ", ".join(one() for _ in range(r.randrange(1, o.n + 1)))

    def address(self, ty, u, const=True):
        """an address of something of type ty that unit u sees"""
        r = self.r
        c = []
        for o in self.visible(u):
            if o.ty == ty and o.shape == "scalar":
                c.append("&" + o.name)
            elif o.ty == ty and o.shape == "array":
                k = r.randrange(o.n)
                c += ["&%s[%d]" % (o.name, k), "%s + %d" % (o.name, k), o.name]
            elif o.ty == ty and o.shape == "array2":
                k = r.randrange(o.n)
                c += ["&%s[%d][%d]" % (o.name, k, r.randrange(3)), "%s[%d]" % (o.name, k), "*(%s + %d) + 1" % (o.name, k)]
            elif o.shape == "struct":
                c += ["&%s.%s" % (o.name, m) for t, m in self.structs[o.ty] if t == ty]
        return r.choice(c) if c else None

    # code ----------------------------------------------------------------------------------------------------------------------
    def lvalue(self, o, u):
        """(text, type) of a scalar in o"""
        r = self.r
        if o.shape == "scalar":
            return o.name, o.ty
        if o.shape == "array":
            k = r.randrange(o.n)
            return r.choice(["%s[%d]" % (o.name, k), "*(%s + %d)" % (o.name, k), "%s[(i + %d) %% %du]" % (o.name, k, o.n)]), o.ty
        if o.shape == "array2":
            return r.choice(["%s[%d][%d]", "(*(%s + %d))[%d]"]) % (o.name, r.randrange(o.n), r.randrange(3)), o.ty
        if o.shape == "struct":
            t, m = r.choice(self.structs[o.ty] + [("char", "c")])
            return r.choice(["%s.%s", "(&%s)->%s"]) % (o.name, m), t
        return None

    def stmt(self, u, f):
        r = self.r
        vis = self.visible(u)
        o = r.choice(vis)
        k = r.random()
        if k < 0.5 and o.shape in ("scalar", "array", "array2", "struct"):
            lv, t = self.lvalue(o, u)
            op = r.random()
            if t in self.fp:
                st = "%s = %s;" % (lv, r.choice(["%s / 2 + 1" % lv, "%s" % self.value(t), "(%s)(i & 7) + %s / 4" % (t, lv)]))
            elif op < 0.4:
                # wrapping keeps this defined
                x = r.choice(["%s = ((unsigned long)%s + %s) & 0x7f;" % (lv, lv, r.choice(["i", "7", "(unsigned long)(i * 3u)"])), "%s = (%s & 15) + %d;" % (lv, lv, r.randrange(5)),
                              "%s ^= %d;" % (lv, r.randrange(64)), "%s |= i & 3;" % lv])
                st = x
            elif op < 0.6:
                st = "%s = %s & 63; (%s)++;" % (lv, lv, lv)
            else:
                st = "%s = %s;" % (lv, self.value(t))
            return st + " " + self.ev(t, lv)
        if o.shape == "ptr" and k < 0.75:
            a = self.address(o.ty, u)
            st = ""
            if a and r.random() < 0.6:
                st = "%s = %s; " % (o.name, a)
            st += "if (%s) { %s %s }" % (o.name, self.ev(o.ty, "*" + o.name), r.choice(["*%s = %s;" % (o.name, self.value(o.ty)), "", self.ev(o.ty, o.name + "[0]")]))
            if a and r.random() < 0.5:
                st += " ev_i(%d, %s == %s); ev_i(%d, %s != 0);" % (self.s(), o.name, a, self.s(), o.name)
            return st
        if o.shape in ("fptr", "ftab"):
            e = o.name if o.shape == "fptr" else "%s[%d]" % (o.name, r.randrange(o.n))
            g = [x for x in self.visible_fns(u) if x.ret == x.par == o.ty]
            st = ""
            if g and r.random() < 0.5:
                h = r.choice(g).name
                st += "ev_i(%d, %s == %s); ev_i(%d, %s == &%s);" % (self.s(), e, h, self.s(), h, h)
            if g and r.random() < 0.3:
                st += " %s = %s; ev_i(%d, %s != 0);" % (e, r.choice(g).name, self.s(), e)
            # a call through it might recurse, which the depth guard ends
            return st + " if (%s && depth < 3) { depth++; %s depth--; }" % (e, self.ev(o.ty, "%s%s(%s)" % (r.choice(["", "*"]) and "(*%s)" % e or e, "", self.value(o.ty))))
        fs = self.visible_fns(u, f.index)
        if fs and k < 0.9:
            g = r.choice(fs)
            arg = r.choice([self.value(g.par), "i & 31" if g.par not in self.fp else "1.5"])
            call = "%s(%s)" % (g.name, arg)
            if r.random() < 0.3:
                return r.choice(["{ extern %s; %s }", "{ %s; %s }"]) % (g.proto(), self.ev(g.ret, call)) if not g.static else self.ev(g.ret, call)
            return self.ev(g.ret, call)
        if k < 0.95:
            o = r.choice([o for o in vis if o.shape == "scalar"] or [None])
            if o:
                # a block scope declaration reaches the object through a local variable that hides it
                return "{ int %s = 3; ev_i(%d, %s); { extern %s; %s %s } ev_i(%d, %s); }" % (o.name, self.s(), o.name, o.decl(), r.choice(["", "extern %s;" % o.decl()]), self.ev(o.ty, o.name), self.s(), o.name) \
                    if not getattr(o, "static", False) else "{ int %s = 3; ev_i(%d, %s++); }" % (o.name, self.s(), o.name)
        t = self.ty()
        n = r.choice(["count", "total", "cache"])
        if t in self.fp:
            return "{ static %s %s = %s; %s = %s / 2 + 1; %s }" % (t, n, self.value(t), n, n, self.ev(t, n))
        return "{ static %s %s%s; %s = (%s & 31) + 1; %s }" % (t, n, r.choice(["", " = 5"]), n, n, self.ev(t, n))

    def unit(self, u):
        r = self.r
        out = [MON_H, "int depth;" if u == 0 else "extern int depth;"]
        for n, ms in self.structs.items():
            out.append(STRUCT % (n, "; ".join("%s %s" % m for m in ms)))
        decls, defs = [], []
        for f in self.visible_fns(u):
            sc = "static " if f.static else r.choice(["", "extern "])
            decls.append(sc + f.proto() + f.asm + ";")
        own = []
        for o in self.visible(u):
            if getattr(o, "static", False):
                kind = r.random()
                if kind < 0.5:
                    own.append("static %s = %s;" % (o.decl(), self.initializer(o, u)))
                elif kind < 0.8 or o.shape == "array":
                    own.append("static %s;" % o.decl())
                else:
                    own.append("static %s; static %s = %s; extern %s;" % (o.decl(), o.decl(), self.initializer(o, u), o.decl()))
                continue
            if o.home == u:
                if r.random() < 0.4:
                    decls.append("extern %s;" % o.decl(r.random() < 0.5))
                else:
                    decls.append("extern %s;" % o.decl())
                k = r.choice(["", "", "", "extern "])
                defs.append("%s%s = %s;" % (k, o.decl(), self.initializer(o, u)))
                if r.random() < 0.2:
                    defs.append("extern %s;" % o.decl())
                if u in o.tent:
                    defs.insert(r.randrange(len(defs) + 1), o.decl() + ";")
            elif u in o.tent:
                decls.append("%s;" % o.decl())
                if r.random() < 0.3:
                    decls.append("%s;" % o.decl())
                if r.random() < 0.3:
                    decls.append("extern %s;" % o.decl())
            else:
                decls.append("extern %s;" % o.decl(r.random() < 0.6))
                if r.random() < 0.15:
                    decls.append("extern %s;" % o.decl())
        r.shuffle(decls)
        # what the initializers refer to is declared before them
        out += decls + own + defs
        for f in self.fns:
            if f.home != u:
                continue
            body = ["unsigned i = %d;" % r.randrange(50), self.ev(f.par, "a")]
            for _ in range(r.choice([1, 2, 4])):
                body.append(self.stmt(u, f))
            ret = "a" if f.ret == f.par else "1" if f.ret in self.fp or f.par in self.fp else "(a & 1) + %d" % r.randrange(5)
            sc = "static " if f.static else ""
            out.append("%s%s {\n  %s\n  return %s;\n}" % (sc, f.proto(True), "\n  ".join(body), ret))
        # a driver per unit that touches everything it sees
        body = ["unsigned i = %d;" % r.randrange(50)]
        last = Fn("", "int", "int", u)
        last.index = 10 ** 6
        for _ in range(r.choice([3, 6])):
            body.append(self.stmt(u, last))
        for o in self.visible(u):
            lv = self.lvalue(o, u)
            if lv:
                body.append(self.ev(lv[1], lv[0]))
        out.append("int drive%d(int a) {\n  %s\n  return a + %d;\n}" % (u, "\n  ".join(body), u))
        if u == 0:
            out.append("".join("int drive%d(int);\n" % i for i in range(1, self.units)) + "int main(void) {\n  %s\n  return 0;\n}" %
                       "\n  ".join("ev_i(%d, drive%d(%d));" % (self.s(), i, r.randrange(9)) for i in list(range(self.units)) * 2))
        return "\n".join(out) + "\n"

    def build(self):
        self.mk_fns()
        self.mk_objs()
        return [("u%d.c" % u, self.unit(u)) for u in range(self.units)]
