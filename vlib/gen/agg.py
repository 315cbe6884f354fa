"""Random aggregate types, access paths and initializers (C05, C06, C07, C08)."""
from .core import *
from .prog import MON_H

POOL = "static int pool_i[16]; static char pool_c[32]; static double pool_d[8]; static void *pool_v[4];\n" \
       "static int fn0(void) { return 10; } static int fn1(void) { return 11; }\n"
PTRS = {"int": "pool_i", "char": "pool_c", "double": "pool_d"}


class StrPtr(Ptr):
    """pointer to a string literal"""

    def __init__(self):
        Ptr.__init__(self, CHAR)


class FnPtr(Ptr):
    def __init__(self):
        Ptr.__init__(self, Func(INT, []))


class Leaf:
    __slots__ = ("path", "ty", "bits", "top", "elems")

    def __init__(self, path, ty, bits=None):
        self.path, self.ty, self.bits = path, ty, bits


class Agg:
    """mode options: bitfields, packed, unions, ptrs, fp, ld, anon, maxmem"""

    def __init__(self, rng, bitfields=0.3, packed=0.15, unions=0.2, ptrs=0.15, fp=0.3, anon=0.15, maxmem=6, depth=3,
                 enums=0.05, arrays=0.3, consts=0.0, unnamed=0.12):
        self.unnamed = unnamed
        self.r = rng
        self.g = Ops(rng, 0.0)
        self.bitfields, self.packed, self.unions, self.ptrs, self.fp, self.anon = bitfields, packed, unions, ptrs, fp, anon
        self.maxmem, self.depth, self.enums, self.arrays = maxmem, depth, enums, arrays
        self.defs = []       # text in order
        self.types = []      # SU types, defined
        self.uid = 0
        self.en = None

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def scalar(self, in_union=False):
        r = self.r
        k = r.random()
        if k < self.ptrs and not in_union:
            return r.choice([Ptr(INT), Ptr(CHAR), Ptr(DOUBLE), StrPtr(), FnPtr()])
        if k < self.ptrs + self.fp:
            return r.choice(FLTS + [DOUBLE, FLOAT])
        return r.choice(INTS + [INT, CHAR])

    def member_type(self, d, in_union):
        r = self.r
        k = r.random()
        if k < self.arrays:
            return Arr(self.member_type(d - 1, in_union) if d > 0 else self.scalar(in_union), r.choice([1, 2, 2, 3, 3, 4, 5, 7]))
        if d > 0 and k < self.arrays + 0.3:
            ok = [t for t in self.types if t.weight < 25 and not (in_union and t.hasptr)]
            if ok and r.random() < 0.7:
                return r.choice(ok)
            return self.struct(d - 1, in_union)
        return self.scalar(in_union)

    @staticmethod
    def weigh(t):
        if isinstance(t, Arr):
            return t.n * Agg.weigh(t.of)
        if isinstance(t, SU):
            return t.weight
        return 1

    def struct(self, d=None, in_union=False, anon=False):
        r = self.r
        d = self.depth if d is None else d
        union = r.random() < self.unions
        inu = in_union or union
        packed = not anon and r.random() < self.packed
        bf = 0 if packed else self.bitfields * r.choice([0, 0, 1, 2])
        ms, w = [], 0
        n = r.randrange(1, self.maxmem + 1)
        for i in range(n):
            mn = self.name("m")
            if r.random() < bf:
                if r.random() < self.unnamed and i:
                    ms.append(Member("", r.choice([INT, UINT]), r.choice([0, 1, 3, 7, 12, 20])))
                    continue
                b = r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 11, 13, 15, 16, 17, 21, 24, 25, 29, 31, 32])
                ms.append(Member(mn, r.choice([INT, UINT]), b))
                w += 1
                continue
            if d > 0 and r.random() < self.anon and not packed:
                t = self.struct(d - 1, inu, True)
                ms.append(Member(None, t))
                w += t.weight
                continue
            t = self.member_type(d, inu)
            if w + self.weigh(t) > 60:
                t = self.scalar(inu)
            w += self.weigh(t)
            ms.append(Member(mn, t))
        if not any(m.name or m.name is None for m in ms) or not w:
            ms.append(Member(self.name("m"), self.scalar(inu)))
            w += 1
        s = SU(None if anon else self.name("U" if union else "S"), ms, union, packed)
        s.weight = max(1, w)
        s.hasptr = any(isinstance(l.ty, Ptr) for l in self.leaves(s))
        s.hasbits = any(m.bits is not None or isinstance(m.ty, SU) and m.ty.hasbits for m in ms)
        if not anon:
            self.types.append(s)
            self.defs.append(su_def(s))
        return s

    # access paths ------------------------------------------------------------
    def leaves(self, ty, path="", first_union=False, bits=None):
        """scalars of ty; first_union: only the first member of unions"""
        if isinstance(ty, Arr):
            return [l for i in range(ty.n) for l in self.leaves(ty.of, "%s[%d]" % (path, i), first_union)]
        if isinstance(ty, SU):
            out = []
            for m in ty.members:
                if m.name == "":
                    continue
                p = path if m.name is None else path + "." + m.name
                out += self.leaves(m.ty, p, first_union, m.bits)
                if ty.union and first_union:
                    break
            return out
        return [Leaf(path, ty, bits)]

    def subs(self, ty, path=""):
        """every subobject (path, type), the object itself included; bit-fields excluded"""
        out = [(path, ty)]
        if isinstance(ty, Arr):
            for i in range(ty.n):
                out += self.subs(ty.of, "%s[%d]" % (path, i))
        elif isinstance(ty, SU):
            for m in ty.members:
                if m.name == "" or m.bits is not None:
                    continue
                if m.name is None:
                    out += self.subs(m.ty, path)[1:]
                else:
                    out += self.subs(m.ty, path + "." + m.name)
        return out

    def ev(self, site, ty, e):
        if isinstance(ty, Flt):
            return "%s(%s, %s);" % ({"float": "ev_f", "double": "ev_d", "long double": "ev_ld"}[ty.name], site, e)
        if isinstance(ty, StrPtr):
            return "ev_s(%s, %s ? %s : \"(null)\");" % (site, e, e)
        if isinstance(ty, Ptr):
            if isinstance(ty.to, Func):
                return "ev_i(%s, %s ? (*%s)() : -1);" % (site, e, e)
            return "ev_i(%s, %s ? (char *) %s - (char *) %s : -77);" % (site, e, e, PTRS[ty.to.name])
        return "%s(%s, %s);" % ("ev_i" if ty.signed else "ev_u", site, e)

    def observer(self, ty, name, first_union=False, static="static "):
        """a function recording every scalar of an object"""
        ls = self.leaves(ty, "", first_union)
        body = []
        for i, l in enumerate(ls):
            body.append("    " + self.ev(i, l.ty, "(*p)" + l.path).replace("(%s, " % i, "(site + %d, " % i, 1))
        return "%svoid %s(int site, %s) {\n%s\n}" % (static, name, decl(Ptr(ty), "p"), "\n".join(body))

    # values --------------------------------------------------------------------
    def const(self, ty, bits=None):
        r = self.r
        if isinstance(ty, Ptr):
            if r.random() < 0.15:
                return "0"
            if isinstance(ty, StrPtr):
                t = "".join(r.choice("abcdefXYZ 0123") for _ in range(r.randrange(0, 9)))
                return r.choice(['"%s"' % t, '"%s"' % t, '"%s" "%s"' % (t[:3], t[3:]), '"%s" + %d' % (t + "zz", r.randrange(len(t) + 1))])
            if isinstance(ty, FnPtr):
                return r.choice(["fn0", "fn1", "&fn0", "&fn1"])
            b = PTRS[ty.to.name]
            n = {"pool_i": 16, "pool_c": 32, "pool_d": 8}[b]
            k = r.randrange(n)
            return r.choice(["%s + %d" % (b, k), "&%s[%d]" % (b, k), b])
        if isinstance(ty, Flt):
            if r.random() < 0.3:
                return str(r.randrange(-100, 1000))
            s = "%s%d.%d" % (r.choice(["", "-"]), r.randrange(0, 999), r.choice([0, 5, 25, 125]))
            return s + r.choice(["", "f", "L"])
        if bits is not None:
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if ty.signed else (0, (1 << bits) - 1)
            return self.g.lit(r.choice([lo, hi, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1)]), 0).t
        return self.g.lit(boundary(r, ty), 0.1).t

    def init(self, ty, style=None, bits=None, top=True, dyn=None):
        """initializer text for ty. style: brace elision etc. chosen at random. dyn(ty): run-time expression or None"""
        r = self.r
        if isinstance(ty, Arr):
            if isinstance(ty.of, Int) and ty.of.size == 1 and r.random() < 0.3:
                s = "".join(r.choice("abcXYZ0189 ") for _ in range(r.randrange(0, ty.n + 1)))
                return '"%s"' % s if r.random() < 0.8 else '{"%s"}' % s
            if ty.of is INT and r.random() < 0.1:
                s = "".join(r.choice("abcXYZ0189 ") for _ in range(r.randrange(0, ty.n + 1)))
                return 'L"%s"' % s if r.random() < 0.8 else '{L"%s"}' % s
            n = r.randrange(1, ty.n + 1) if r.random() < 0.5 else ty.n
            xs = [self.init(ty.of, style, None, False, dyn) for _ in range(n)]
            return self.braced(xs, n == ty.n, top)
        if isinstance(ty, SU):
            if dyn and r.random() < 0.15:
                e = dyn(ty, None)
                if e:
                    return e
            ms = [m for m in ty.members if m.name != ""]
            if ty.union:
                ms = ms[:1]
                return self.braced([self.init(ms[0].ty, style, ms[0].bits, False, dyn)], True, top)
            n = r.randrange(1, len(ms) + 1) if r.random() < 0.5 else len(ms)
            xs = [self.init(m.ty, style, m.bits, False, dyn) for m in ms[:n]]
            return self.braced(xs, n == len(ms), top)
        if dyn and r.random() < 0.4:
            e = dyn(ty, bits)
            if e:
                return e
        c = self.const(ty, bits)
        if r.random() < 0.03:
            return "{%s}" % c
        return c

    def braced(self, xs, full, top, nofirst=None):
        r = self.r
        # braces may be left out when the list is complete and every element is complete as well
        if full and not top and r.random() < 0.3 and not xs[0].startswith("{") and (nofirst is None or not isinstance(nofirst, SU)):
            return Elided(", ".join(xs))
        return "{%s%s}" % (", ".join(xs), r.choice(["", "", ","]))

class Elided(str):
    """a list whose own braces were left out"""
