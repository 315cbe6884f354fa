"""Programs that read and write objects through every kind of access path (C06)."""
from .agg import *


class Obj:
    """a way to reach an object of type ty. text: expression; ptr: text is a pointer to it"""
    __slots__ = ("text", "ty", "ptr", "const")

    def __init__(self, text, ty, ptr=False):
        self.text, self.ty, self.ptr = text, ty, ptr


class Access:
    def __init__(self, rng, nstmt=14, bitfields=None, fp=None, unions=None, packed=None, depth=None, big=False):
        self.r = rng
        r = rng
        c = lambda v, xs: r.choice(xs) if v is None else v
        self.a = Agg(r, bitfields=c(bitfields, [0, 0.3, 0.6]), packed=c(packed, [0, 0.2]), unions=c(unions, [0, 0.2]), ptrs=r.choice([0.05, 0.2]),
                     fp=c(fp, [0, 0.2, 0.4]), anon=r.choice([0, 0.2]), maxmem=r.choice([3, 5, 8]), depth=c(depth, [0, 1, 2, 3]))
        self.g = Ops(r, 0.0)
        self.nstmt = nstmt
        self.site = 0
        self.top, self.obs, self.ret = [], {}, {}

    def nxt(self, n=1):
        self.site += n
        return self.site - n

    # paths ------------------------------------------------------------------
    def idx(self, n):
        """expression for the index n"""
        r = self.r
        k = r.randrange(8)
        t = r.choice(["i", "l", "c", "u"])
        if n > 6:
            return str(n)
        if k == 0 and n > 0:
            return "%s%d + 1" % (t, n - 1)
        if k == 1 and n < 6:
            return "%s%d - 1" % (t, n + 1)
        if k == 2:
            return "g_i%d" % n
        return "%s%d" % (t, n) if k < 6 else str(n)

    def sub(self, e, n):
        r = self.r
        k = r.randrange(10)
        i = self.idx(n)
        if k == 0:
            return "(*(%s + %s))" % (e, i if i.isidentifier() or i.isdigit() else "(%s)" % i)
        if k == 1 and n:
            return "(%s + %d)[%s]" % (e, n, r.choice(["0", "i0", "l0"]))
        if k == 2 and n < 6 and e[0] != "(":
            return "(&%s[%d])[-1]" % (e, n + 1)
        if k == 3 and i.isidentifier():
            return "%s[%s]" % (i, e)
        return "%s[%s]" % (e, i)

    def steps(self, ty, want, d=0):
        """random walk from ty to a type satisfying want; list of steps or None"""
        r = self.r
        if want(ty) and (not isinstance(ty, (Arr, SU)) or r.random() < 0.6):
            return [], ty, None
        if isinstance(ty, Arr):
            x = self.steps(ty.of, want, d + 1)
            return x and ([r.randrange(ty.n)] + x[0], x[1], x[2])
        if isinstance(ty, SU):
            ms = [m for m in ty.members if m.name != ""]
            if ty.union:
                ms = ms[:1]
            r.shuffle(ms)
            for m in ms:
                if m.bits is not None:
                    if want(m.ty) and self.bits_ok:
                        return [m.name], m.ty, m.bits
                    continue
                x = self.steps(m.ty, want, d + 1)
                if x:
                    return ([m.name] if m.name else []) + x[0], x[1], x[2]
        return ([], ty, None) if want(ty) else None

    def render(self, o, steps):
        r = self.r
        e, ptr = o.text, o.ptr
        for s in steps:
            if ptr:
                if isinstance(s, str):
                    e = r.choice(["%s->%s", "%s->%s", "(*%s).%s", "%s[0].%s"]) % (e, s)
                else:
                    e = self.sub("(*%s)" % e, s)
                ptr = False
            elif isinstance(s, str):
                e = "%s.%s" % (e, s) if r.random() < 0.9 else "(&%s)->%s" % (e, s)
            else:
                e = self.sub(e, s)
        return ("(*%s)" % e if r.random() < 0.7 else "%s[0]" % e) if ptr else e

    def lval(self, want, bits=True):
        """(text, type, bits) of a random lvalue of a wanted type"""
        r = self.r
        self.bits_ok = bits
        os_ = list(self.objs)
        r.shuffle(os_)
        for o in os_:
            x = self.steps(o.ty, want)
            if x:
                return self.render(o, x[0]), x[1], x[2]
        return None

    @staticmethod
    def is_scalar(t):
        return not isinstance(t, (Arr, SU))

    def rval(self, ty, bits=None):
        r = self.r
        if isinstance(ty, Int):
            k = r.random()
            x = self.lval(lambda t: isinstance(t, Int)) if k < 0.5 else None
            if x:
                return r.choice(["%s", "%s", "(%s ^ 5)", "(%s & 1023)", "((unsigned long) %s + 3)", "(%s | 64)", "-(unsigned) %s"]) % x[0]
            if k < 0.56:
                x = self.lval(lambda t: isinstance(t, SU) and t.tag)
                ms = x and [m.name for m in x[1].members if m.name and isinstance(m.ty, Int)]
                if ms and not x[1].union:
                    return "ret_%s(&%s).%s" % (x[1].tag, x[0], r.choice(ms))
            if k < 0.7:
                return r.choice(["i3", "l2", "c5", "u1", "g_i2", "(i1 + l4)", "i6 * 11"])
        elif isinstance(ty, Flt):
            k = r.random()
            x = self.lval(lambda t: isinstance(t, (Flt, Int))) if k < 0.5 else None
            if x:
                return x[0]
        elif isinstance(ty, Ptr):
            x = self.lval(lambda t: t.__class__ is ty.__class__ and getattr(t, "to", None) is ty.to) if r.random() < 0.4 else None
            if x:
                return x[0]
            if not isinstance(ty, (StrPtr, FnPtr)) and r.random() < 0.4:
                return "&%s[%s]" % (PTRS[ty.to.name], self.idx(r.randrange(7)))
        return self.a.const(ty, bits)

    # statements ----------------------------------------------------------------
    def store(self):
        r = self.r
        x = self.lval(self.is_scalar)
        if not x:
            return ";"
        e, t, bits = x
        k = r.random()
        if isinstance(t, Int) and k < 0.3:
            op = r.choice(["|=", "^=", "&=", "+=", "-=", "*="])
            if op in ("+=", "-=", "*=") and t.signed and t.size >= 4:
                op = "^="
            s = "%s %s %s" % (e, op, r.choice([str(r.randrange(0, 100)), "i3", "u2", "c4", self.rval(UCHAR)]) if op in ("|=", "^=", "&=") else
                              r.choice(["3", "u2", "c1", "l5"]))
        elif isinstance(t, Int) and k < 0.4 and (not t.signed or t.size < 4):
            s = r.choice(["%s++", "++%s", "%s--", "--%s"]) % e
        elif isinstance(t, Flt) and k < 0.2:
            s = "%s %s %s" % (e, r.choice(["+=", "-=", "*="]), r.choice(["1", "2", "i3", "0.5"]))
        elif isinstance(t, Flt) and k < 0.25:
            s = r.choice(["%s++", "--%s"]) % e
        elif isinstance(t, Ptr) and not isinstance(t, (StrPtr, FnPtr)) and k < 0.15:
            s = "%s = %s + 5, %s" % (e, PTRS[t.to.name], r.choice(["%s++", "++%s", "--%s", "%s += 2", "%s -= i2"]) % e)
        else:
            s = "%s = %s" % (e, self.rval(t, bits))
        if r.random() < 0.2 and not (isinstance(t, Ptr)):
            return self.a.ev(self.nxt(), t, "(%s)" % s)
        return s + ";"

    def suof(self, t):
        return lambda x: x is t

    def copy(self):
        r = self.r
        x = self.lval(lambda t: isinstance(t, SU) and t.tag)
        if not x:
            return self.store()
        e, t, _ = x
        src = lambda: self.lval(self.suof(t))[0]
        k = r.randrange(9)
        if k == 0:
            return "%s = i1 > %d ? %s : %s;" % (e, r.randrange(3), src(), src())
        if k == 1:
            return "%s = %s = %s;" % (e, src(), src())
        if k == 2:
            return "%s = ret_%s(&%s);" % (e, t.tag, src())
        if k == 3:
            return "byval_%s(%d, %s, i%d);" % (t.tag, self.nxt(len(self.a.leaves(t, "", True))), src(), r.randrange(7))
        if k == 4:
            return "{ %s = %s; %s = *q; q = &%s; %s }" % (decl(Ptr(t), "q"), r.choice(["&" + src()]), e, src(), self.obs_call(t, "(*q)"))
        if k == 5:
            return "{ %s = %s; %s = tmp; }" % (decl(t, "tmp"), src(), e)
        if k == 6:
            return "%s = (i0, %s);" % (e, src())
        return "%s = %s;" % (e, src())

    def obs_call(self, t, e):
        if isinstance(t, SU) and t.tag:
            return "obs_%s(%d, &%s);" % (t.tag, self.nxt(len(self.a.leaves(t, "", True))), e)
        return " ".join(self.a.ev(self.nxt(), l.ty, e + l.path) for l in self.a.leaves(t, "", True))

    def walk(self):
        """pointer walk over an array of scalars or structs"""
        r = self.r
        x = self.lval(lambda t: isinstance(t, Arr) and not isinstance(t.of, (Arr, Ptr)) and not (isinstance(t.of, SU) and not t.of.tag))
        if not x:
            return self.store()
        e, t, _ = x
        n = t.n
        of = t.of
        if isinstance(of, SU):
            self.objs.append(Obj("w", of, True))
            b = self.store()
            self.objs.pop()
            st = b
            k = r.randrange(3)
            if k == 0:
                return "{ %s; for (w = %s; w < %s + %d; w++) { %s } }" % (decl(Ptr(of), "w"), e, e, n, st)
            if k == 1:
                return "{ %s = &%s[%d]; int k = %d; while (k--) { %s w--; if (!k) break; } }" % (decl(Ptr(of), "w"), e, n - 1, n, st)
            return "{ %s; int k; for (k = 0; k < %d; k++) { w = &%s[k]; %s } ev_i(%d, w - %s); }" % (decl(Ptr(of), "w"), n, e, st, self.nxt(), e)
        v = self.r.choice(["k", "k * 3", "7"])
        k = r.randrange(5)
        if k == 0:
            return "{ %s = %s; int k; for (k = 0; k < %d; k++) *w++ = %s; ev_i(%d, w - %s); }" % (decl(Ptr(of), "w"), e, n, v, self.nxt(), e)
        if k == 1:
            return "{ %s = %s + %d; int k = %d; while (w != %s) *--w = %s; ev_i(%d, w == %s); }" % (decl(Ptr(of), "w"), e, n, n, e, v, self.nxt(), e)
        if k == 2:
            return "{ int k; for (k = 0; k < %d; k++) %s[k] = %s; }" % (n, e, v)
        if k == 3:
            return "{ %s = %s; int k; for (k = 0; w < %s + %d; w++, k++) { %s ev_i(%d, w - %s); } }" % (
                decl(Ptr(of), "w"), e, e, n, self.a.ev(self.nxt(), of, "*w"), self.nxt(), e)
        return "{ int k; %s = &%s[%d]; for (k = 0; k > -%d; k--) w[k] = %s; }" % (decl(Ptr(of), "w"), e, n - 1, n, v)

    def bytes_(self):
        r = self.r
        x = self.lval(lambda t: isinstance(t, Int), bits=False)
        if not x:
            return self.store()
        e, t, _ = x
        k = r.randrange(t.size)
        q = r.randrange(3)
        if q == 0:
            return "ev_i(%d, ((%s *) &%s)[%d]);" % (self.nxt(), r.choice(["char", "unsigned char"]), e, k)
        if q == 1:
            return "((char *) &%s)[%s] = %d;" % (e, self.idx(k), r.randrange(-128, 128))
        return "{ void *v = &%s; char *b = v; b[%d] ^= 0x5a; ev_i(%d, *(%s *) v); }" % (e, k, self.nxt(), t.name)

    def ptrs_(self):
        r = self.r
        x = self.lval(lambda t: isinstance(t, Arr))
        if not x:
            return self.store()
        e, t, _ = x
        i, j = r.randrange(t.n), r.randrange(t.n + 1)
        k = r.randrange(5)
        if k == 0:
            return "ev_i(%d, &%s[%s] - (%s + %d));" % (self.nxt(), e, self.idx(i), e, j)
        if k == 1:
            return "ev_i(%d, &%s[%s] %s %s + %d);" % (self.nxt(), e, self.idx(i), r.choice(["<", ">", "<=", ">=", "==", "!="]), e, j)
        if k == 2:
            return "ev_i(%d, (char *) (&%s + 1) - (char *) &%s);" % (self.nxt(), e, e)
        if k == 3:
            return "ev_i(%d, (long) (%s + %d) - (long) %s);" % (self.nxt(), e, j, e)
        return "ev_i(%d, &%s[%s] && !(%s == 0));" % (self.nxt(), e, self.idx(i), e)

    def alias(self):
        """a pointer into the middle of an object, used for a few statements"""
        r = self.r
        x = self.lval(lambda t: not (isinstance(t, SU) and not t.tag) and not (isinstance(t, Arr) and isinstance(t.of, SU) and not t.of.tag), bits=False)
        if not x:
            return self.store()
        e, t, _ = x
        self.uid += 1
        n = "q%d" % self.uid
        self.objs += [Obj(n, t, True)] * 3
        body = [self.stmt(0) for _ in range(r.randrange(1, 4))]
        del self.objs[-3:]
        return "{ %s = &%s; %s }" % (decl(Ptr(t), n), e, " ".join(body))

    def stmt(self, d=1):
        r = self.r
        k = r.random()
        if k < 0.45:
            return self.store()
        if k < 0.62:
            return self.copy()
        if k < 0.74:
            return self.walk()
        if k < 0.80:
            return self.bytes_()
        if k < 0.86:
            return self.ptrs_()
        if d:
            return self.alias()
        x = self.lval(self.is_scalar)
        return self.a.ev(self.nxt(), x[1], x[0]) if x else ";"

    def build(self):
        r, a = self.r, self.a
        self.uid = 0
        for _ in range(r.randrange(2, 5)):
            a.struct()
        ts = [t for t in a.types]
        for t in ts:
            self.top.append(a.observer(t, "obs_" + t.tag, True))
            self.top.append("static %s ret_%s(%s) { return *p; }" % (decl(t, "").strip(), t.tag, decl(Ptr(t), "p")))
            self.objs = [Obj("v", t)]
            m = self.store()
            for x in ("i", "l", "c", "u"):
                for n in range(7):
                    m = m.replace("%s%d" % (x, n), "g_i%d" % n) if False else m
            self.top.append("static void byval_%s(int site, %s, int n) { g_i0 = 0; obs_%s(site, &v); }" % (t.tag, decl(t, "v"), t.tag))
        glob, gobjs = [], []
        for i in range(r.randrange(1, 4)):
            t = r.choice(ts)
            if r.random() < 0.4 and t.weight < 20:
                t = Arr(t, r.choice([2, 3, 4]))
                if r.random() < 0.2 and t.of.weight < 8:
                    t = Arr(t, 2)
            glob.append("%s%s;" % (r.choice(["", "static "]), decl(t, "g%d" % i)))
            gobjs.append(Obj("g%d" % i, t))
        sc = r.choice(INTS + FLTS)
        sa = Arr(sc, r.choice([3, 5, 7]))
        if r.random() < 0.5:
            sa = Arr(sa, r.choice([2, 3]))
            if r.random() < 0.3:
                sa = Arr(sa, 2)
        glob.append("static %s;" % decl(sa, "gs"))
        gobjs.append(Obj("gs", sa))
        # other ways to the same objects: pointers with static storage, tables, functions and pointers to pointers
        getters = []
        for n in range(r.randrange(0, 4)):
            o = r.choice([x for x in gobjs if not x.ptr])
            pt = Ptr(o.ty)
            k = r.randrange(5)
            if k == 0:
                glob.append("%s%s = &%s;" % (r.choice(["", "static "]), decl(pt, "gp%d" % n), o.text))
                gobjs.append(Obj("gp%d" % n, o.ty, True))
            elif k == 1:
                glob.append("static %s = { 0, &%s };" % (decl(Arr(pt, 2), "gt%d" % n), o.text))
                gobjs.append(Obj(r.choice(["gt%d[1]", "gt%d[i1]", "gt%d[l1]", "(*(gt%d + c1))"]) % n, o.ty, True))
            elif k == 2:
                getters.append("static %s { return &%s; }" % (decl(pt, "(get%d(void))" % n).replace("(get%d(void))" % n, "get%d(void)" % n), o.text))
                gobjs.append(Obj("get%d()" % n, o.ty, True))
            elif k == 3:
                glob.append("static %s = &%s;" % (decl(pt, "gq%d" % n), o.text))
                glob.append("%s = &gq%d;" % (decl(Ptr(pt), "gqq%d" % n), n))
                gobjs.append(Obj("(*gqq%d)" % n, o.ty, True))
            else:
                glob.append("static struct { char pad; %s; } gw%d = { 1, &%s };" % (decl(pt, "p"), n, o.text))
                gobjs.append(Obj("gw%d.p" % n, o.ty, True))
        glob.append("int %s;" % ", ".join("g_i%d = %d" % (i, i) for i in range(7)))
        fns, main = [], []
        for f in range(r.randrange(1, 4)):
            params, args = [], []
            self.objs = list(gobjs)
            locs, inits = [], []
            for i in range(r.randrange(1, 4)):
                t = r.choice(ts)
                if r.random() < 0.3 and t.weight < 20:
                    t = Arr(t, r.choice([2, 3]))
                locs.append(decl(t, "v%d" % i) + ";")
                inits.append("zero(&v%d, sizeof v%d);" % (i, i))
                self.objs.append(Obj("v%d" % i, t))
                if r.random() < 0.5:
                    locs.append("%s;" % decl(Ptr(t), "p%d" % i))
                    inits.append("p%d = &v%d;" % (i, i))
                    self.objs.append(Obj("p%d" % i, t, True))
            t = r.choice(INTS + FLTS)
            t = Arr(t, r.choice([2, 4]))
            locs.append(decl(t, "vs") + ";")
            inits.append("zero(vs, sizeof vs);")
            self.objs.append(Obj("vs", t))
            o = r.choice([x for x in gobjs if not x.ptr])
            params.append(decl(Ptr(o.ty), "ap"))
            args.append("&" + o.text)
            same = [x.text for x in self.objs if x.ptr and x.ty is o.ty]
            if r.random() < 0.3:
                self.objs.append(Obj("(%s ? ap : %s)" % (r.choice(["n", "i0", "l1", "c1 > 4"]), r.choice(same) if same else "&" + o.text), o.ty, True))
            if r.random() < 0.3:
                locs.append("static %s;" % decl(Ptr(o.ty), "sp"))
                inits.append("sp = ap;")
                self.objs.append(Obj("sp", o.ty, True))
            if r.random() < 0.3:
                locs.append("%s;" % decl(Ptr(Ptr(o.ty)), "app"))
                inits.append("app = &ap;")
                self.objs.append(Obj("(*app)", o.ty, True))
            self.objs.append(Obj("ap", o.ty, True))
            for x, tn in (("i", "int"), ("l", "long"), ("c", "char"), ("u", "unsigned")):
                locs.append("%s %s;" % (tn, ", ".join("%s%d = n + %d" % (x, k, k) for k in range(7))))
            n = self.r.randrange(self.nstmt // 2, self.nstmt + 1)
            body = []
            for _ in range(n):
                body.append(self.stmt())
                if r.random() < 0.1:
                    o = r.choice(self.objs)
                    body.append(self.observe(o))
            seen = set()
            for o in self.objs:
                if not o.ptr and o.text not in seen:
                    seen.add(o.text)
                    body.append(self.observe(o))
            fns.append("static void f%d(int n, %s) {\n    %s\n}" % (f, ", ".join(params), "\n    ".join(locs + inits + body)))
            main.append("f%d(0, %s);" % (f, ", ".join(args)))
        fill = "static void zero(void *p, unsigned long n) { char *c = p; while (n--) *c++ = 0; }\n"
        return MON_H + POOL + fill + "\n".join(a.defs + glob[-1:] + self.top + glob[:-1] + getters + fns) + "\nint main(void) {\n    %s\n    return 0;\n}\n" % "\n    ".join(main)

    def observe(self, o):
        t, e = o.ty, "(*%s)" % o.text if o.ptr else o.text
        if isinstance(t, Arr) and isinstance(t.of, SU) and t.of.tag:
            return " ".join(self.obs_call(t.of, "%s[%d]" % (e, i)) for i in range(t.n))
        return self.obs_call(t, e)
