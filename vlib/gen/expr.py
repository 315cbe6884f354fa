"""Variables, lvalues and random expressions."""
from .core import *


class Var:
    """A scalar object. `ways` lists (text, precedence, extra reads) spellings of the lvalue."""

    def __init__(self, name, ty, lo, hi, vid=None, bits=None, ways=None, const=False, full=None, reg=False):
        self.name, self.ty, self.lo, self.hi = name, ty, lo, hi
        self.id = vid or name
        self.bits, self.ways, self.const, self.reg = bits, ways or [(name, PRIM, EMPTY)], const, reg
        self.rng = None       # function giving extra spellings at use time

    @property
    def tlo(self):
        """smallest value the object can hold"""
        if self.bits is not None:
            return -(1 << (self.bits - 1)) if self.ty.signed else 0
        return self.ty.lo

    @property
    def thi(self):
        if self.bits is not None:
            return (1 << (self.bits - 1)) - 1 if self.ty.signed else (1 << self.bits) - 1
        return self.ty.hi

    def store_iv(self, lo, hi, src):
        """interval of the value held after storing; None if undefined"""
        if isinstance(self.ty, Flt) or self.bits is None:
            return conv_iv(lo, hi, src, self.ty)
        iv = conv_iv(lo, hi, src, self.ty)
        if iv is None:
            return None
        lo, hi = iv
        if self.tlo <= lo and hi <= self.thi:
            return lo, hi
        if lo == hi:
            v = lo & ((1 << self.bits) - 1)
            if self.ty.signed and v > self.thi:
                v -= 1 << self.bits
            return v, v
        return self.tlo, self.thi


class Gen(Ops):
    """Random expressions over self.vars.

    exact: straight-line mode, intervals follow assignments. Otherwise a variable's interval is an invariant.
    """

    def __init__(self, rng, exact=True, fp=0.0, effects=0.25, calls=0.1, tick=0.0, parens=0.12):
        Ops.__init__(self, rng, parens)
        self.exact, self.fp, self.effects, self.calls, self.tickp = exact, fp, effects, calls, tick
        self.vars = []
        self.funcs = []      # (name, ret ty, param ty): pure identity functions
        self.site = 0
        self.nontrivial = 0

    def new_site(self):
        self.site += 1
        return self.site

    # state -----------------------------------------------------------------
    def snap(self):
        return [(v, v.lo, v.hi) for v in self.vars]

    def restore(self, s):
        for v, lo, hi in s:
            v.lo, v.hi = lo, hi

    # leaves ----------------------------------------------------------------
    def lval(self, v):
        ways = v.ways
        if v.rng:
            ways = ways + v.rng()
        t, p, R = ways[0] if len(ways) > 1 and self.r.random() < 0.4 else self.r.choice(ways)
        return t, p, R

    def var_e(self, v, fr=EMPTY):
        for _ in range(4):
            t, p, R = self.lval(v)
            if not (R & fr):
                break
        else:
            t, p, R = v.ways[0]
        return E(t, v.ty, v.lo, v.hi, p, R | {v.id}, EMPTY, bits=v.bits)

    def pick_var(self, fr, pred=None):
        c = [v for v in self.vars if v.id not in fr and (pred is None or pred(v))]
        return self.r.choice(c) if c else None

    def leaf(self, fr, fp=None):
        """fp: None any, False integers only, True floating only"""
        r = self.r
        want_fp = fp if fp is not None else r.random() < self.fp
        if r.random() < 0.72:
            v = self.pick_var(fr, lambda v: isinstance(v.ty, Flt) == want_fp)
            if v:
                e = self.var_e(v, fr)
                if not (e.R & fr):
                    return e
        if want_fp:
            return self.flit()
        k = r.random()
        if k < 0.04:
            ty = r.choice(INTS + FLTS)
            return E("sizeof(%s)" % ty.name, ULONG, ty.size, ty.size, UNARY, const=True)
        if k < 0.45:
            return self.lit(r.randrange(-5, 40))
        return self.lit(boundary(r, r.choice(INTS)))

    # expressions -----------------------------------------------------------
    def expr(self, d, fr=EMPTY, fw=EMPTY, eff=True, fp=None):
        r = self.r
        if d <= 0 or r.random() < 0.08:
            e = self.leaf(fr, fp)
            return e
        k = r.random()
        if eff and k < self.effects:
            e = self.effect(d, fr, fw, fp)
            if e is not None:
                return e
        k = r.random()
        if k < 0.52:
            return self.bin_expr(d, fr, fw, eff, fp)
        if k < 0.64:
            a = self.expr(d - 1, fr, fw, eff, fp)
            op = r.choice("-~!+" if a.isint else "-!+")
            if fp is True and op == "!":
                op = "-"
            e = self.unary(op, a)
            return e if e else self.unary("~", a)
        if k < 0.76:
            a = self.expr(d - 1, fr, fw, eff)
            return self.cast_any(a, fp)
        if k < 0.84:
            return self.tern_expr(d, fr, fw, eff, fp)
        if k < 0.91 and fp is not True:
            return self.logic_expr(d, fr, fw, eff)
        if k < 0.91 + self.calls and self.funcs:
            return self.call_expr(d, fr, fw, eff, fp)
        if k < 0.97 and fp is not True:
            a = self.expr(d - 1, fr, fw, eff)
            b = self.expr(d - 1, fr | a.W, fw | a.R | a.W, eff)
            return self.binary(r.choice(CMPS), a, b)
        if fp is not True and eff and r.random() < 0.5:
            a = self.expr(d - 1, fr, fw, eff)
            b = self.expr(d - 1, fr, fw, eff, fp)
            return self.comma(a, b)
        return self.bin_expr(d, fr, fw, eff, fp)

    def as_int(self, e):
        if e.isint:
            return e
        for ty in (INT, LONG):
            c = self.cast(ty, e)
            if c:
                return c
        return self.binary(self.r.choice(["<", ">", "=="]), e, self.flit())

    def cast_any(self, a, fp):
        r = self.r
        for _ in range(4):
            if fp is True or (fp is None and r.random() < self.fp):
                ty = r.choice(FLTS)
            else:
                ty = r.choice(INTS)
            c = self.cast(ty, a)
            if c:
                return c
        return self.cast(r.choice(INTS), self.as_int(a))

    def bin_expr(self, d, fr, fw, eff, fp):
        r = self.r
        fpop = fp is True or (fp is None and r.random() < self.fp)
        a = self.expr(d - 1, fr, fw, eff, (True if r.random() < 0.7 else None) if fpop else fp)
        if not fpop and a.isint and r.random() < 0.3:
            op, b = self.special(a)
            e = self.binary(op, a, b)
            if op in "*+-&|^" and r.random() < 0.3:
                e = self.binary(op, b, a)
            if e:
                return e
        if fpop and not a.isint and r.random() < 0.25:
            b = r.choice([lambda: self.fspecial(), lambda: self.lit(r.choice([0, 1, 2, -1, 10]), 0.2)])()
            op = r.choice("+-*/*/")
            return self.binary(op, b, a) if r.random() < 0.4 else self.binary(op, a, b)
        b = self.expr(d - 1, fr | a.W, fw | a.R | a.W, eff, (True if not a.isint is False else None) if fpop else fp)
        if fpop and a.isint and b.isint:
            b = self.cast(r.choice(FLTS), b)
        if not a.isint or not b.isint:
            return self.binary(r.choice("+-*/"), a, b)
        op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "+", "-", "*"])
        return self.int_binary(op, a, b)

    def special(self, a):
        """an operator and a constant operand that compilers treat specially"""
        r = self.r
        op = r.choice(["*", "*", "/", "/", "%", "%", "%", "+", "-", "&", "|", "^", "<<", ">>"])
        if op in ("<<", ">>"):
            return op, self.lit(r.randrange(promote(a.ty, a.bits).bits), 0.2)
        if op in "*/%":
            v = r.choice([1 << r.randrange(0, 12), 1 << r.randrange(0, 12), 1 << r.randrange(0, 64), 1, -1, 0, 3, 5, 10,
                          100, -(1 << r.randrange(0, 12)), (1 << r.randrange(1, 63)) - 1])
            if v == 0 and op != "*":
                v = 7
            return op, self.lit(v, 0.2)
        if op in "+-":
            return op, self.lit(r.choice([0, 1, -1, 127, 128, -128, 2147483647, 2147483648, 4294967295, -2147483648]), 0.2)
        return op, self.lit(r.choice([0, -1, 1, 0xff, 0xffff, 0x7fffffff, 0xffffffff, 0x80000000, (1 << r.randrange(1, 64)) - 1,
                                      1 << r.randrange(0, 64)]), 0.2)

    def fspecial(self):
        ty = self.r.choice(FLTS)
        s = self.r.choice(["0.0", "1.0", "2.0", "0.5", "10.0"])
        e = E(s + {"float": "f", "double": "", "long double": "L"}[ty.name], ty, float(s), float(s), PRIM, const=True)
        if self.r.random() < 0.3:
            e = self.unary("-", e)
            e.const = True
        return e

    def int_binary(self, op, a, b):
        """a op b with whatever repairs make it defined"""
        r = self.r
        e = self.binary(op, a, b)
        if e:
            return e
        if op in ("<<", ">>"):
            n = promote(a.ty, a.bits).bits
            m = b
            if not (0 <= b.lo and b.hi < n):
                m = self.binary("&", b, self.lit(n - 1, 0.1))
            e = self.binary(op, a, m)
            if e:
                return e
            return self.binary(op, self.cast(r.choice([UINT, ULONG]), a) if n == 32 else self.cast(ULONG, a), m) or \
                self.binary("^", a, b)
        if op in "/%":
            m = self.binary("&", b, self.lit(r.choice([7, 15, 255, 127]), 0.1))
            m = self.binary("+", m, self.lit(r.choice([1, 1, 2, 5]), 0.1))
            e = m and self.binary(op, a, m)
            if e:
                return e
            return self.binary("|", a, b)
        if r.random() < 0.5:
            e = self.binary(op, self.cast(r.choice([UINT, ULONG]), a), b) or \
                self.binary(op, self.cast(ULONG, a), b)
            if e:
                return e
        else:
            m1 = self.lit(r.choice([0xff, 0x3fff, 0x7f]), 0.1)
            m2 = self.lit(r.choice([0xff, 0x3fff, 0x7f]), 0.1)
            e = self.binary(op, self.binary("&", a, m1), self.binary("&", b, m2))
            if e:
                return e
        return self.binary(r.choice("&|^"), a, b)

    def branch(self, taken, f):
        """generates a conditionally evaluated operand; taken: True/False/None"""
        if not self.exact:
            return f(True)
        if taken is None:
            return f(False)
        if taken:
            return f(True)
        s = self.snap()
        e = f(True)
        self.restore(s)
        return e

    def tern_expr(self, d, fr, fw, eff, fp):
        c = self.expr(d - 1, fr, fw, eff)
        if not self.exact:
            self.nontrivial += 1
        t = c.truth
        a = self.branch(t, lambda ok: self.expr(d - 1, fr, fw, eff and ok, fp))
        b = self.branch(None if t is None else not t, lambda ok: self.expr(d - 1, fr, fw, eff and ok, fp))
        return self.ternary(c, a, b)

    def logic_expr(self, d, fr, fw, eff):
        op = self.r.choice(["&&", "||"])
        a = self.expr(d - 1, fr, fw, eff)
        t = a.truth
        taken = t if op == "&&" else (None if t is None else not t)
        b = self.branch(taken, lambda ok: self.expr(d - 1, fr, fw, eff and ok))
        return self.binary(op, a, b)

    def call_expr(self, d, fr, fw, eff, fp):
        r = self.r
        fs = [f for f in self.funcs if fp is None or isinstance(f[1], Flt) == fp]
        if not fs:
            return self.leaf(fr, fp)
        name, ret, par = r.choice(fs)
        a = self.expr(d - 1, fr, fw, eff)
        iv = conv_iv(a.lo, a.hi, a.ty, par)
        if iv is None:
            a = self.as_int(a)
            iv = conv_iv(a.lo, a.hi, a.ty, par)
        iv = conv_iv(iv[0], iv[1], par, ret)
        return E("%s(%s)" % (name, self.par(a, ASG)), ret, iv[0], iv[1], POST, a.R, a.W)

    # side effects ----------------------------------------------------------
    def fits(self, v, iv):
        if iv is None:
            return False
        if self.exact:
            return True
        if isinstance(v.ty, Flt):
            return v.lo is None or (iv[0] is not None and v.lo <= iv[0] and iv[1] <= v.hi)
        return v.lo <= iv[0] and iv[1] <= v.hi

    def set(self, v, iv):
        if self.exact:
            v.lo, v.hi = iv

    def coerce(self, v, e):
        """changes e so that storing it in v keeps v's invariant"""
        r = self.r
        if self.fits(v, v.store_iv(e.lo, e.hi, e.ty)):
            return e
        if isinstance(v.ty, Flt):
            e = self.as_int(e)
            if v.lo is not None:
                m = max(1, int(min(abs(v.lo), abs(v.hi)) / 2))
                e = self.binary("%", self.cast(LONG, e), self.lit(m, 0))
            return e
        e = self.as_int(e)
        if self.fits(v, v.store_iv(e.lo, e.hi, e.ty)):
            return e
        if v.lo >= 0 or v.hi <= 0 or r.random() < 0.5 or v.lo > -v.hi:
            # into [lo, hi] through a modulus
            n = v.hi - v.lo + 1
            if n >= 2 ** 63:
                return self.cast(v.ty, e)
            u = self.binary("%", self.cast(ULONG, e), self.raw_lit(n, True, "", ""))
            x = self.cast(LONG, u)
            return self.binary("+", x, self.lit(v.lo, 0)) if v.lo else x
        return self.binary("%", self.cast(LONG, e), self.lit(min(-v.lo, v.hi) + 1, 0))

    def effect(self, d, fr, fw, fp=None):
        """an expression with a side effect, or None"""
        r = self.r
        if self.tickp and EV not in fw and r.random() < self.tickp and fp is not True:
            a = self.as_int(self.expr(d - 2, fr, fw | {EV}, True, False))
            iv = conv_iv(a.lo, a.hi, a.ty, INT)
            return E("tick(%d, %s)" % (self.new_site(), self.par(a, ASG)), INT, iv[0], iv[1], POST, a.R, a.W | {EV})
        v = self.pick_var(fr | fw, lambda v: not v.const and (fp is None or isinstance(v.ty, Flt) == fp) and
                          (self.fp > 0 or isinstance(v.ty, Int)))
        if v is None:
            return None
        t, p, R = self.lval(v)
        if (R & fr) or v.id in R:
            t, p, R = v.ways[0]
            if (R & fr) or v.id in R:
                return None
        k = r.random()
        isf = isinstance(v.ty, Flt)
        if k < 0.4:
            # ++ --
            op = r.choice(["++", "--"])
            cur = E(t, v.ty, v.lo, v.hi, p, R | {v.id}, bits=v.bits)
            n = self.binary(op[0], cur, E("1", INT, 1, 1))
            iv = n and v.store_iv(n.lo, n.hi, n.ty)
            if n and self.fits(v, iv):
                x = t if p >= UNARY else "(" + t + ")"
                pre = r.random() < 0.5
                val = iv if pre else (v.lo, v.hi)
                if not pre and p < POST:
                    x = "(" + t + ")"
                if not self.exact and pre:
                    val = iv
                self.set(v, iv)
                txt = op + x if pre else x + op
                e = E(txt, v.ty, val[0], val[1], UNARY if pre else POST, R | {v.id}, frozenset([v.id]))
                return self.flat_bits(e, v)
            k = 0.4 + r.random() * 0.6
        fr2, fw2 = fr, fw | {v.id} | R
        if k < 0.7:
            # plain assignment
            e = self.expr(d - 1, fr2, fw2, True, None if not isf or r.random() < 0.5 else True)
            if e.W & R or e.W & {v.id}:
                return None if not self.exact else None
            e = self.coerce(v, e)
            iv = v.store_iv(e.lo, e.hi, e.ty)
            self.set(v, iv)
            x = t if p >= UNARY else "(" + t + ")"
            res = E("%s = %s" % (x, self.par(e, ASG)), v.ty, iv[0], iv[1], ASG, e.R | R, e.W | {v.id})
            return self.flat_bits(res, v)
        # compound assignment
        cur = E(t, v.ty, v.lo, v.hi, p, R | {v.id}, bits=v.bits)
        if isf:
            op = r.choice("+-*/")
        else:
            op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
        e = self.expr(d - 1, fr2 , fw2, True, None if isf else (None if self.fp and r.random() < 0.3 and op in "+-*/" else False))
        if op in ("<<", ">>"):
            n = promote(v.ty, v.bits).bits
            if not (0 <= e.lo and e.hi < n):
                e = self.binary("&", e, self.lit(n - 1, 0.1))
        if op in "/%" and e.isint and e.lo <= 0 <= e.hi:
            e = self.binary("&", e, self.lit(63, 0.1))
            e = self.binary("+", e, self.lit(r.choice([1, 3]), 0.1))

        def attempt(op, e):
            n = self.binary(op, E(cur.t, cur.ty, cur.lo, cur.hi, cur.p, EMPTY, EMPTY, bits=cur.bits),
                            E(e.t, e.ty, e.lo, e.hi, e.p, EMPTY, EMPTY, bits=e.bits))
            iv = n and v.store_iv(n.lo, n.hi, n.ty)
            return iv if n and self.fits(v, iv) else None
        # the value of v at the time the operation happens may have been changed by e only if e writes v: excluded
        iv = attempt(op, e)
        if iv is None and not isf:
            e2 = self.cast(r.choice([UINT, ULONG]), self.as_int(e)) if e.isint or self.as_int(e) else e
            iv = attempt(op, e2)
            if iv is not None:
                e = e2
        if iv is None and not isf:
            e = self.as_int(e)
            for op in r.sample(["&", "|", "^", "%"], 4):
                if op == "%" and e.lo <= 0 <= e.hi:
                    continue
                iv = attempt(op, e)
                if iv is not None:
                    break
        if iv is None and isf:
            op, e2 = "*", E("1", INT, 1, 1)
            iv = attempt(op, e2)
            if e.W:
                e2 = self.comma(e, e2)
            e = e2
        if iv is None:
            # e's side effects must not be lost
            if e.W:
                return e if fp is None or e.isint != fp else None
            return None
        self.set(v, iv)
        x = t if p >= UNARY else "(" + t + ")"
        res = E("%s %s= %s" % (x, op, self.par(e, ASG)), v.ty, iv[0], iv[1], ASG, e.R | R | {v.id}, e.W | {v.id})
        return self.flat_bits(res, v)

    def flat_bits(self, e, v):
        if v.bits is None:
            return e
        return self.cast(LONG if v.ty.size == 8 else INT if v.ty.signed else UINT, e, (LONG if v.ty.size == 8 else INT if v.ty.signed else UINT).name)

    # recording -------------------------------------------------------------
    def ev(self, e):
        s = self.new_site()
        a = self.par(e, ASG)
        if isinstance(e.ty, Flt):
            return "%s(%d, %s);" % ({"float": "ev_f", "double": "ev_d", "long double": "ev_ld"}[e.ty.name], s, a)
        return "%s(%d, %s);" % ("ev_i" if e.ty.signed else "ev_u", s, a)

    def ev_type(self, e):
        """records the type of an arithmetic expression without evaluating it"""
        s = self.new_site()
        if isinstance(e.ty, Flt):
            return "ev_i(%d, sizeof(%s));" % (s, e.t)
        # neither sizeof nor the unselected operand is evaluated
        return "ev_i(%d, sizeof(%s) * 10 + ((0 ? (%s) : -1) < 0));" % (s, e.t, e.t)
