"""Generator core: C expressions without undefined or unspecified behaviour.

Every expression carries the interval its value lies in and the variables it
reads and writes, so that overflow, bad shifts, division by zero and conflicting
unsequenced accesses are never generated.
"""
from ..ctypes_ import *

# precedence levels
PRIM, POST, UNARY, CAST_, MUL, ADD, SHIFT, REL, EQ, BAND, BXOR, BOR, LAND, LOR, COND, ASG, COMMA = range(16, -1, -1)

EMPTY = frozenset()
EV = "<events>"      # pseudo variable: the trace


class E:
    __slots__ = ("t", "ty", "lo", "hi", "p", "R", "W", "const", "bits")

    def __init__(self, t, ty, lo, hi, p=PRIM, R=EMPTY, W=EMPTY, const=False, bits=None):
        self.t, self.ty, self.lo, self.hi, self.p = t, ty, lo, hi, p
        self.R, self.W, self.const, self.bits = R, W, const, bits

    @property
    def point(self):
        return self.lo is not None and self.lo == self.hi and isinstance(self.ty, Int)

    @property
    def isint(self):
        return isinstance(self.ty, Int)

    @property
    def truth(self):
        """True/False/None"""
        if not self.isint or self.lo is None:
            return None
        if self.lo > 0 or self.hi < 0:
            return True
        if self.lo == 0 and self.hi == 0:
            return False
        return None


def promote(ty, bits=None):
    if isinstance(ty, Int):
        if ty.rank < 3:
            return INT
        if bits is not None and bits < 32:
            return INT
    return ty


def uac(a, b):
    if isinstance(a, Flt) or isinstance(b, Flt):
        if not isinstance(a, Flt):
            return b
        if not isinstance(b, Flt):
            return a
        return a if a.rank >= b.rank else b
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank > b.rank else b
    u, s = (a, b) if not a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    return s  # long can represent every unsigned int


def conv_iv(lo, hi, src, dst):
    """interval after converting from src to dst; None if it may be undefined"""
    if isinstance(dst, Int):
        if isinstance(src, Flt):
            if lo is None:
                return None
            # strictly inside, with slack for rounding
            slack = 1 + (abs(lo) + abs(hi)) * 1e-6
            if lo - slack <= dst.lo or hi + slack >= dst.hi:
                return None
            return int(lo - slack), int(hi + slack)
        if dst.lo <= lo and hi <= dst.hi:
            return lo, hi
        if lo == hi:
            w = dst.wrap(lo)
            return w, w
        return dst.lo, dst.hi
    # to floating point
    if lo is None:
        return None, None
    if isinstance(src, Int):
        return float(lo) - abs(lo) * 1e-6, float(hi) + abs(hi) * 1e-6
    return flt_iv(lo, hi)


BIG = 1e18


def flt_iv(lo, hi):
    if lo is None or hi is None or lo != lo or hi != hi or lo < -BIG or hi > BIG:
        return None, None
    s = (abs(lo) + abs(hi)) * 1e-6
    return lo - s, hi + s


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tmod(a, b):
    return a - b * tdiv(a, b)


def pow2m1(v):
    return (1 << v.bit_length()) - 1


def int_bin(op, ct, a, b):
    """interval of a op b in type ct (a, b already converted); None if it may be undefined"""
    (al, ah), (bl, bh) = a, b
    pt = al == ah and bl == bh
    if op in "+-*":
        if op == "+":
            c = (al + bl, ah + bh)
        elif op == "-":
            c = (al - bh, ah - bl)
        else:
            cs = [x * y for x in (al, ah) for y in (bl, bh)]
            c = (min(cs), max(cs))
        if ct.lo <= c[0] and c[1] <= ct.hi:
            return c
        if ct.signed:
            return None
        if pt:
            w = ct.wrap(c[0])
            return w, w
        return ct.lo, ct.hi
    if op in "/%":
        if bl <= 0 <= bh:
            return None
        if ct.signed and al == ct.lo and bl <= -1 <= bh:
            return None
        if pt:
            v = tdiv(al, bl) if op == "/" else tmod(al, bl)
            return v, v
        if op == "/":
            cs = [tdiv(x, y) for x in (al, ah) for y in (bl, bh)]
            if al <= 0 <= ah:
                cs.append(0)
            return min(cs), max(cs)
        m = max(abs(bl), abs(bh)) - 1
        return (max(-m, al) if al < 0 else 0), (min(m, ah) if ah > 0 else 0)
    if op in "&|^":
        if pt:
            v = {"&": al & bl, "|": al | bl, "^": al ^ bl}[op]
            return v, v
        if al >= 0 and bl >= 0:
            if op == "&":
                return 0, min(ah, bh)
            return 0, pow2m1(ah | bh)
        if op == "&" and (al >= 0 or bl >= 0):
            return 0, (ah if al >= 0 else bh)
        return ct.lo, ct.hi
    raise AssertionError(op)


def shift_iv(op, ct, a, b):
    (al, ah), (bl, bh) = a, b
    if bl < 0 or bh >= ct.bits:
        return None
    if op == "<<":
        if ct.signed:
            if al < 0:
                return None
            if (ah << bh) > ct.hi:
                return None
            return al << bl, ah << bh
        if (ah << bh) <= ct.hi:
            return al << bl, ah << bh
        if al == ah and bl == bh:
            w = ct.wrap(al << bl)
            return w, w
        return ct.lo, ct.hi
    cs = [al >> bl, al >> bh, ah >> bl, ah >> bh]
    return min(cs), max(cs)


def cmp_iv(op, a, b):
    (al, ah), (bl, bh) = a, b
    if al is None or bl is None:
        return 0, 1
    if al == ah and bl == bh:
        v = int({"<": al < bl, ">": al > bl, "<=": al <= bl, ">=": al >= bl, "==": al == bl, "!=": al != bl}[op])
        return v, v
    return 0, 1


BINP = {"*": MUL, "/": MUL, "%": MUL, "+": ADD, "-": ADD, "<<": SHIFT, ">>": SHIFT, "<": REL, ">": REL, "<=": REL,
        ">=": REL, "==": EQ, "!=": EQ, "&": BAND, "^": BXOR, "|": BOR, "&&": LAND, "||": LOR}
CMPS = ["<", ">", "<=", ">=", "==", "!="]


class Ops:
    """Builds expressions; rng decides redundant parentheses."""

    def __init__(self, rng, parens=0.12):
        self.r, self.parens = rng, parens

    def par(self, e, p):
        if e.p < p or self.r.random() < self.parens:
            return "(" + e.t + ")"
        return e.t

    @staticmethod
    def conflict(a, b):
        return (a.W & (b.R | b.W)) or (b.W & a.R)

    def binary(self, op, a, b):
        """a op b, or None where it may be undefined. Operands must not conflict."""
        if op not in ("&&", "||") and self.conflict(a, b):
            return None
        p = BINP[op]
        aty, bty = promote(a.ty, a.bits), promote(b.ty, b.bits)
        if op in ("<<", ">>"):
            if not (a.isint and b.isint):
                return None
            iv = shift_iv(op, aty, (a.lo, a.hi), (b.lo, b.hi))
            ty = aty
        elif op in ("&&", "||"):
            ta, tb = a.truth, b.truth
            if op == "&&":
                v = False if ta is False else (tb if ta else (False if tb is False else None))
            else:
                v = True if ta else (tb if ta is False else (True if tb else None))
            iv = (0, 1) if v is None else (int(v), int(v))
            ty = INT
        else:
            ct = uac(aty, bty)
            ai, bi = conv_iv(a.lo, a.hi, a.ty, ct), conv_iv(b.lo, b.hi, b.ty, ct)
            if op in CMPS:
                iv, ty = ((0, 1) if isinstance(ct, Flt) else cmp_iv(op, ai, bi)), INT
            elif isinstance(ct, Flt):
                if op not in ("+", "-", "*", "/"):
                    return None
                iv, ty = self.flt_bin(op, ai, bi), ct
            else:
                iv, ty = int_bin(op, ct, ai, bi), ct
        if iv is None:
            return None
        t = "%s %s %s" % (self.par(a, p), op, self.par(b, p + 1))
        return E(t, ty, iv[0], iv[1], p, a.R | b.R, a.W | b.W, a.const and b.const)

    @staticmethod
    def flt_bin(op, a, b):
        (al, ah), (bl, bh) = a, b
        if al is None or bl is None:
            return None, None
        if op == "+":
            return flt_iv(al + bl, ah + bh)
        if op == "-":
            return flt_iv(al - bh, ah - bl)
        if op == "*":
            cs = [x * y for x in (al, ah) for y in (bl, bh)]
        else:
            if bl <= 1e-3 and bh >= -1e-3:
                return None, None
            cs = [x / y for x in (al, ah) for y in (bl, bh)]
        return flt_iv(min(cs), max(cs))

    def unary(self, op, a):
        ty = promote(a.ty, a.bits)
        if op == "!":
            t = a.truth
            iv, ty = ((0, 1) if t is None else (int(not t),) * 2), INT
        elif isinstance(ty, Flt):
            if op == "~":
                return None
            iv = (a.lo, a.hi) if op == "+" or a.lo is None else (-a.hi, -a.lo)
        else:
            lo, hi = conv_iv(a.lo, a.hi, a.ty, ty)
            if op == "+":
                iv = lo, hi
            elif op == "-":
                iv = int_bin("-", ty, (0, 0), (lo, hi))
            else:
                iv = (-1 - hi, -1 - lo) if ty.signed else (ty.hi - hi, ty.hi - lo)
        if iv is None:
            return None
        x = self.par(a, CAST_)
        return E(op + (" " if x[0] in "+-&" else "") + x, ty, iv[0], iv[1], UNARY, a.R, a.W, a.const)

    def cast(self, ty, a, spell=None):
        iv = conv_iv(a.lo, a.hi, a.ty, ty)
        if iv is None:
            return None
        name = spell or self.spelling(ty)
        return E("(%s) %s" % (name, self.par(a, CAST_)), ty, iv[0], iv[1], CAST_, a.R, a.W, a.const)

    def spelling(self, ty):
        s = SPELL.get(ty.name)
        return self.r.choice(s) if s and self.r.random() < 0.3 else ty.name

    def ternary(self, c, a, b):
        ty = uac(promote(a.ty, a.bits), promote(b.ty, b.bits))
        ai, bi = conv_iv(a.lo, a.hi, a.ty, ty), conv_iv(b.lo, b.hi, b.ty, ty)
        t = c.truth
        if t is True:
            iv = ai
        elif t is False:
            iv = bi
        elif ai[0] is None or bi[0] is None:
            iv = None, None
        else:
            iv = min(ai[0], bi[0]), max(ai[1], bi[1])
        txt = "%s ? %s : %s" % (self.par(c, LOR), self.par(a, ASG), self.par(b, COND))
        return E(txt, ty, iv[0], iv[1], COND, c.R | a.R | b.R, c.W | a.W | b.W, c.const and a.const and b.const)

    def comma(self, a, b):
        return E("%s, %s" % (self.par(a, COMMA), self.par(b, ASG)), b.ty, b.lo, b.hi, COMMA, a.R | b.R, a.W | b.W)

    # literals --------------------------------------------------------------
    def int_lit_type(self, v, base10, u, l):
        if u and l:
            c = [ULONG]
        elif u:
            c = [UINT, ULONG]
        elif l:
            c = [LONG, ULONG]
        elif base10:
            c = [INT, LONG, ULONG]
        else:
            c = [INT, UINT, LONG, ULONG]
        for t in c:
            if v <= t.hi:
                return t
        raise AssertionError(v)

    def lit(self, v, suffixed=0.3):
        """An integer literal (possibly negated) with value v, of whatever type it gets."""
        r = self.r
        if v < 0:
            if v == LONG.lo:
                return E("(-9223372036854775807 - 1)", LONG, v, v, PRIM, const=True)
            if v == INT.lo and r.random() < 0.6:
                return E("(-2147483647 - 1)", INT, v, v, PRIM, const=True)
            p = self.lit(-v, suffixed)
            if not p.ty.signed:
                p = self.raw_lit(-v, True, "", "")
            return E("-" + p.t, p.ty, v, v, UNARY, const=True)
        u = l = ""
        if r.random() < suffixed:
            u = r.choice(["", "u", "U"])
            l = r.choice(["", "l", "L"])
        base10 = r.random() < 0.6 and v <= LONG.hi
        if v < 128 and not u and not l and r.random() < 0.1 and v not in (39, 92, 63) and v >= 32:
            return E("'%c'" % v, INT, v, v, PRIM, const=True)
        return self.raw_lit(v, base10, u, l)

    def raw_lit(self, v, base10, u, l):
        r = self.r
        ty = self.int_lit_type(v, base10, bool(u), bool(l))
        if base10:
            t = "%d" % v
        elif r.random() < 0.75:
            t = r.choice(["0x%x", "0X%X", "0x%X"]) % v
        else:
            t = "0%o" % v
        t += (u + l) if r.random() < 0.6 else (l + u)
        return E(t, ty, v, v, PRIM, const=True)

    FLITS = ["0.0", "1.0", "0.5", "2.0", "3.25", "10.0", "100.0", "0.1", "1e3", "1.5e2", "7.", ".25", "1e-2", "123.456",
             "3.0e0", "65536.0", "0.001", "12345678.0", "4e6", "2.5E1", "1E+2", "16777217.0"]

    def flit(self, ty=None):
        r = self.r
        ty = ty or r.choice(FLTS)
        s = r.choice(self.FLITS)
        if r.random() < 0.5:
            s = "%d.%d" % (r.randrange(0, 10 ** r.choice([1, 2, 5])), r.randrange(0, 10 ** r.choice([1, 3, 6])))
        v = float(s)
        s += {"float": r.choice("fF"), "double": "", "long double": r.choice("lL")}[ty.name]
        lo, hi = flt_iv(v, v)
        e = E(s, ty, lo, hi, PRIM, const=True)
        if r.random() < 0.25:
            e = self.unary("-", e)
            e.const = True
        return e


def boundary(r, ty):
    """An interesting value of an integer type."""
    k = r.random()
    if k < 0.3:
        return r.choice([ty.lo, ty.hi, ty.lo + 1, ty.hi - 1, 0, 1, ty.wrap(-1), 2, ty.hi // 2])
    if k < 0.5:
        v = (1 << r.randrange(0, ty.bits)) + r.choice([-1, 0, 1])
        if ty.signed and r.random() < 0.5:
            v = -v
        return ty.wrap(v)
    if k < 0.75:
        return ty.wrap(r.randrange(-20, 100))
    if k < 0.85:
        o = r.choice(INTS)
        return ty.wrap(r.choice([o.lo, o.hi, o.lo - 1, o.hi + 1]))
    return r.randrange(ty.lo, ty.hi + 1)
