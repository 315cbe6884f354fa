"""Control-flow programs (C04, C11, C19): variables keep an interval invariant, every edge records an event."""
from .expr import *
from .prog import MON_H


class Flow:
    def __init__(self, rng, nfuncs=4, size=18, depth=3, nest=4, effects=0.25, tick=0.3, gotos=True, fp=0.0, live=0,
                 nvars=None, maxparams=4, recursion=True):
        self.r = rng
        self.g = Gen(rng, False, fp, effects, 0.06, tick)
        self.nfuncs, self.size, self.depth, self.nest, self.gotos = nfuncs, size, depth, nest, gotos
        self.live, self.nvars, self.maxparams, self.recursion = live, nvars, maxparams, recursion
        self.uid = 0
        self.top = []
        self.fun = []        # (name, return type, params, interval)

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def inv(self, ty):
        r = self.r
        if isinstance(ty, Flt):
            return -1000.0, 1000.0
        k = r.random()
        if k < 0.3 or not ty.signed and k < 0.6:
            return ty.lo, ty.hi
        if ty.signed:
            m = r.choice([3, 50, 120])
            if ty.rank > 1 and r.random() < 0.5:
                m = r.choice([1000, 30000])
            return -m, m
        return 0, r.choice([1, 9, 100, 255])

    def value(self, ty, iv):
        r = self.r
        if isinstance(ty, Flt):
            e = E("%d.%d" % (r.randrange(0, 100), r.randrange(0, 99)), ty, 0, 0)
            return e.t
        v = r.choice([iv[0], iv[1], 0, 1, r.randrange(iv[0], iv[1] + 1), r.randrange(iv[0], iv[1] + 1)])
        v = max(iv[0], min(iv[1], v))
        return self.g.lit(v, 0.1).t

    def ty(self):
        if self.g.fp and self.r.random() < self.g.fp:
            return self.r.choice(FLTS)
        return self.r.choice(INTS + [INT, INT, LONG])

    def decl(self, out, ind, where):
        r = self.r
        ty = self.ty()
        iv = self.inv(ty)
        n = self.name("g" if where == "global" else "v")
        st = r.choice(["", "", "static "]) if where == "global" else r.choice([""] * 6 + ["register ", "static ", "volatile "])
        v = Var(n, ty, iv[0], iv[1])
        k = r.random()
        if k < 0.12 and not isinstance(ty, Flt) and "register" not in st and "volatile" not in st:
            cnt = r.randrange(2, 5)
            out.append("%s%s%s %s[%d] = {%s};" % (ind, st, ty.name, n, cnt, ", ".join(self.value(ty, iv) for _ in range(cnt))))
            v.id = n
            v.ways = [("%s[%d]" % (n, i), POST, EMPTY) for i in range(cnt)]
            idx = [x for x in self.g.vars if isinstance(x.ty, Int) and 0 <= x.lo and x.hi < cnt and x.ways[0][0] == x.name and x.name != n]
            if idx:
                x = r.choice(idx)
                v.ways.append(("%s[%s]" % (n, x.name), POST, frozenset([x.id])))
        else:
            init = " = " + self.value(ty, iv)
            out.append("%s%s%s %s%s;" % (ind, st, ty.name, n, init))
            if "register" not in st and "volatile" not in st and r.random() < 0.2:
                pn = self.name("p")
                out.append("%s%s *%s = &%s;" % (ind, ty.name, pn, n))
                v.ways += [("*" + pn, UNARY, EMPTY), (pn + "[0]", POST, EMPTY)]
        return v

    def mark(self):
        return "ev_b(%d);" % self.g.new_site()

    # ---------------------------------------------------------------------
    def func(self, idx):
        r, g = self.r, self.g
        keep = list(g.vars)
        fn = self.name("f")
        rty = self.ty() if r.random() < 0.8 else None
        riv = self.inv(rty) if rty else None
        pars = []
        for _ in range(r.randrange(0, self.maxparams + 1)):
            ty = self.ty()
            v = Var(self.name("q"), ty, *self.inv(ty))
            pars.append(v)
            g.vars.append(v)
        self.labels = []         # forward labels usable: (name, remaining uses)
        self.ret = (rty, riv)
        self.fn, self.pars = fn, pars
        self.counters = []
        self.after = []
        body = []
        nv = self.nvars if self.nvars is not None else r.randrange(2, 7)
        decls = []
        for _ in range(nv):
            g.vars.append(self.decl(decls, "    ", "local"))
        self.budget = self.size
        self.inloop = self.inswitch = 0
        self.loopdepth = 0
        self.recursed = False
        self.block(body, "    ", self.nest)
        for v in g.vars:
            if v not in keep and r.random() < 0.8:
                body.append("    " + g.ev(g.var_e(v)))
        ctr = ["    int %s = 0;" % c for c in self.counters]
        tail = []
        if rty:
            e = g.coerce(Var("ret", rty, riv[0], riv[1]), g.expr(2))
            tail.append("    return %s;" % e.t)
        self.top.append("%s%s %s(%s) {\n%s\n}" % (r.choice(["", "", "static "]), rty.name if rty else "void", fn,
                        ", ".join("%s %s" % (p.ty.name, p.name) for p in pars) or "void",
                        "\n".join(decls + ctr + ["    if (mon_fuel-- <= 0) return%s;" % (" 0" if rty else "")] + body + tail)))
        g.vars = keep
        if rty is not None and not (riv[0] <= 0 <= riv[1]):
            riv = (min(0, riv[0]), max(0, riv[1]))
        self.fun.append((fn, rty, [(p.ty, p.lo, p.hi) for p in pars], riv))

    def call(self, d=1):
        """text of a call to one of the functions already generated"""
        r, g = self.r, self.g
        fn, rty, pars, riv = r.choice(self.fun)
        args = []
        for ty, lo, hi in pars:
            e = g.coerce(Var("x", ty, lo, hi), g.expr(d, eff=False))
            args.append(g.par(e, ASG))
        return "%s(%s)" % (fn, ", ".join(args)), rty, riv

    def block(self, out, ind, nest, n=None):
        for _ in range(n or self.r.choice([1, 2, 2, 3, 4])):
            if self.budget <= 0:
                out.append(ind + self.mark())
                return
            self.stmt(out, ind, nest)

    def cond(self):
        g, r = self.g, self.r
        if r.random() < 0.35:
            return g.logic_expr(r.choice([2, 3]), EMPTY, EMPTY, True).t
        e = g.expr(r.randrange(1, self.depth + 1), eff=r.random() < 0.5)
        return e.t

    def sub(self, out, ind, nest):
        """a nested block with its own scope now and then"""
        g = self.g
        keep = list(g.vars)
        if self.r.random() < 0.25:
            g.vars.append(self.decl(out, ind, "local"))
        out.append(ind + self.mark())
        self.block(out, ind, nest - 1)
        g.vars = keep

    def jump(self, out, ind):
        r = self.r
        c = []
        if self.inloop:
            c += ["continue;", "break;"]
        elif self.inswitch:
            c += ["break;"]
        if self.gotos:
            for l in self.labels:
                c += ["goto %s;" % l]
        rty, riv = self.ret
        if r.random() < 0.3 or not c:
            if rty is None:
                c += ["return;"]
            else:
                e = self.g.coerce(Var("ret", rty, riv[0], riv[1]), self.g.expr(2))
                c += ["return %s;" % e.t]
        j = r.choice(c)
        out.append(ind + j)
        for l in self.labels:
            if j == "goto %s;" % l:
                self.used.add(l)
    used = set()

    def counter(self):
        c = self.name("i")
        self.counters.append(c)
        return c

    def stmt(self, out, ind, nest):
        r, g = self.r, self.g
        self.budget -= 1
        k = r.random()
        i2 = ind + "    "
        if nest <= 0 or k < 0.32:
            e = None
            for _ in range(4):
                e = g.effect(r.randrange(1, self.depth + 1), EMPTY, EMPTY)
                if e is not None:
                    break
            if e is not None and r.random() < 0.6:
                out.append(ind + e.t + ";")
            else:
                out.append(ind + g.ev(g.expr(r.randrange(1, self.depth + 1))))
            return
        if k < 0.36 and self.fun:
            t, rty, riv = self.call()
            if rty is None or r.random() < 0.3:
                out.append(ind + t + ";")
            else:
                v = g.pick_var(EMPTY, lambda v: not v.const and isinstance(v.ty, Int) and isinstance(rty, Int))
                e = E(t, rty, riv[0], riv[1], POST)
                if v is not None and r.random() < 0.6:
                    e = g.coerce(v, e)
                    out.append("%s%s = %s;" % (ind, v.ways[0][0], e.t))
                else:
                    out.append(ind + g.ev(e))
            return
        if k < 0.40 and nest > 0:
            out.append(ind + "{")
            self.sub(out, i2, nest)
            out.append(ind + "}")
            return
        if k < 0.56:
            form = r.random()
            out.append("%sif (%s) {" % (ind, self.cond()))
            self.sub(out, i2, nest)
            if r.random() < 0.3:
                self.jump(out, i2)
            if form < 0.3:
                out.append(ind + "}")
                return
            while form > 0.75 and r.random() < 0.5:
                out.append("%s} else if (%s) {" % (ind, self.cond()))
                self.sub(out, i2, nest)
            out.append(ind + "} else {")
            self.sub(out, i2, nest)
            if r.random() < 0.2:
                self.jump(out, i2)
            out.append(ind + "}")
            return
        if k < 0.60:
            # unbraced forms
            c = self.counter()
            kind = r.randrange(4)
            if kind == 0:
                out.append("%sif (%s) %s else %s" % (ind, self.cond(), self.mark(), self.mark()))
            elif kind == 1:
                out.append("%sif (%s) if (%s) %s else %s" % (ind, self.cond(), self.cond(), self.mark(), self.mark()))
            elif kind == 2:
                out.append("%sfor (%s = 0; %s < %d; %s++) if (%s) %s else %s" % (
                    ind, c, c, r.randrange(1, 5), c, self.cond(), self.mark(), r.choice(["continue;", "break;", self.mark()])))
            else:
                out.append("%swhile (%s++ < %d) %s" % (ind, c, r.randrange(1, 5), self.mark()))
            return
        if k < 0.78:
            self.loop(out, ind, nest)
            return
        if k < 0.88:
            self.switch(out, ind, nest)
            return
        if k < 0.95 and self.gotos:
            # forward jump target around a block
            l = self.name("L")
            self.labels.append(l)
            self.used = set(self.used)
            self.block(out, ind, nest - 1)
            if r.random() < 0.7 or l not in self.used:
                out.append("%sif (%s) goto %s;" % (ind, self.cond(), l))
                self.used.add(l)
            self.block(out, ind, nest - 1)
            self.labels.remove(l)
            out.append("%s%s: %s" % (ind, l, self.mark()))
            return
        if self.gotos and k < 0.98:
            # backward jump, bounded
            c, l = self.counter(), self.name("L")
            out.append("%s%s: %s" % (ind, l, r.choice([";", self.mark()])))
            self.block(out, ind, nest - 1)
            out.append("%sif (%s++ < %d) goto %s;" % (ind, c, r.randrange(1, 4), l))
            return
        self.jump_if(out, ind)

    def jump_if(self, out, ind):
        out.append("%sif (%s) {" % (ind, self.cond()))
        self.jump(out, ind + "    ")
        out.append(ind + "}")

    def loop(self, out, ind, nest):
        r, g = self.r, self.g
        c = self.counter()
        n = r.randrange(1, 6)
        if self.loopdepth >= 2:
            n = min(n, 2)
        kind = r.randrange(6)
        i2 = ind + "    "
        self.inloop += 1
        self.loopdepth += 1
        ls, self.inswitch = self.inswitch, 0
        extra = " && (%s)" % self.cond() if r.random() < 0.3 else ""
        if kind == 0:
            out.append("%s%s = 0; while (%s++ < %d%s) {" % (ind, c, c, n, extra))
            self.sub(out, i2, nest)
            out.append(ind + "}")
        elif kind == 1:
            out.append("%s%s = %d; do {" % (ind, c, n))
            self.sub(out, i2, nest)
            out.append("%s} while (--%s > 0%s);" % (ind, c, extra))
        elif kind == 2:
            out.append("%sfor (%s = %d; %s >= 0%s; %s--) {" % (ind, c, n, c, extra, c))
            self.sub(out, i2, nest)
            if r.random() < 0.3:
                self.jump_if(out, i2)
            out.append(ind + "}")
        elif kind == 3:
            e = None
            for _ in range(3):
                e = e or g.effect(2, EMPTY, EMPTY)
            inc = "%s++, %s" % (c, g.par(e, ASG)) if e else c + "++"
            out.append("%sfor (%s = 0; %s < %d%s; %s) {" % (ind, c, c, n, extra, inc))
            self.sub(out, i2, nest)
            out.append(ind + "}")
        elif kind == 4:
            out.append("%s%s = 0; for (;;) {" % (ind, c))
            out.append("%sif (%s++ >= %d) break;" % (i2, c, n))
            self.block(out, i2, nest - 1)
            out.append(ind + "}")
        else:
            out.append("%s%s = 0; while (%s) {" % (ind, c, r.choice(["1", "2 > 1", "'a'"])))
            out.append("%sif (++%s > %d) break;" % (i2, c, n))
            self.block(out, i2, nest - 1)
            out.append(ind + "}")
        self.inloop -= 1
        self.loopdepth -= 1
        self.inswitch = ls
        if r.random() < 0.5:
            out.append("%sev_i(%d, %s);" % (ind, g.new_site(), c))

    def switch(self, out, ind, nest):
        r, g = self.r, self.g
        e = g.as_int(g.expr(2, eff=r.random() < 0.5))
        ty = promote(e.ty)
        if r.random() < 0.7:
            m = r.choice([3, 4, 7, 8])
            x = g.binary("%", e, g.lit(m, 0)) or g.binary("&", e, g.lit(m, 0))
            e, ty = x, x.ty
            lo, hi = (-m, m) if x.lo < 0 else (0, m)
            vals = list(range(lo, hi + 1))
        else:
            vals = list({boundary(r, r.choice(INTS)) for _ in range(8)} | set(range(-2, 4)))
            vals = [v for v in vals if ty.lo <= v <= ty.hi]
        r.shuffle(vals)
        vals = vals[:r.randrange(0, 8)]
        seen = set()
        out.append("%sswitch (%s) {" % (ind, e.t))
        items = [("case", v) for v in vals]
        if r.random() < 0.7:
            items.insert(r.randrange(len(items) + 1), ("default", 0))
        self.inswitch += 1
        il, self.inloop_sw = self.inloop, self.inloop
        i2 = ind + "    "
        for kind, v in items:
            if kind == "case":
                w = ty.wrap(v)
                if w in seen:
                    continue
                seen.add(w)
                out.append("%scase %s:" % (ind, self.case_label(v)))
            else:
                out.append(ind + "default:")
            if r.random() < 0.15:
                continue         # shares the next label's code
            out.append(i2 + self.mark())
            # break inside here leaves the switch
            self.block(out, i2, nest - 1, r.choice([1, 1, 2]))
            k = r.random()
            if k < 0.6:
                out.append(i2 + "break;")
            elif k < 0.7:
                self.jump(out, i2)
        out.append(i2 + ";")
        out.append(ind + "}")
        self.inswitch -= 1

    def case_label(self, v):
        r = self.r
        if r.random() < 0.3 and -1000 < v < 1000:
            d = r.randrange(-9, 10)
            return "%d + (%d)" % (v - d, d) if d >= 0 else "%d - %d" % (v - d, -d)
        return self.g.lit(v, 0.1).t

    def build(self):
        r, g = self.r, self.g
        for ty in INTS + (FLTS if g.fp else []):
            n = "id_" + ty.name.replace(" ", "_")
            self.top.append("%s %s(%s x) { return x; }" % (ty.name, n, ty.name))
            g.funcs.append((n, ty, ty))
        gl = []
        for _ in range(r.randrange(3, 8)):
            g.vars.append(self.decl(gl, "", "global"))
        self.top += gl
        for i in range(self.nfuncs):
            self.func(i)
        main = []
        for _ in range(r.randrange(3, 8)):
            main.append("mon_fuel = 2000;")
            t, rty, riv = self.call()
            main.append(g.ev(E(t, rty, riv[0], riv[1], POST)) if rty else t + ";")
            for v in g.vars:
                if r.random() < 0.5:
                    main.append(g.ev(g.var_e(v)))
        self.top.append("int main(void) {\n%s\n    return 0;\n}" % "\n".join("    " + c for c in main))
        return MON_H + "static int mon_fuel;\n" + "\n\n".join(self.top) + "\n"
