"""C07: initializers set every element the language says, to the right value, and zero the rest."""
from ..frame import Check
from ..gen.agg import *
from ..oracle import diff_case

HELP = """static void dirty(int n) { volatile char buf[2000]; int i; for (i = 0; i < 2000; i++) buf[i] = 0xa5 + n; if (n) dirty(n - 1); }
"""


class Inits:
    def __init__(self, r, unions=0.15):
        self.r = r
        self.a = Agg(r, bitfields=r.choice([0, 0, 0.3]), packed=r.choice([0, 0.1]), unions=r.choice([0, unions]), ptrs=r.choice([0.1, 0.3]),
                     fp=r.choice([0.1, 0.3]), anon=0, maxmem=r.choice([2, 4, 6]), depth=r.choice([0, 1, 2, 3]))
        self.site = 0
        self.obs = {}
        self.top = []

    def nxt(self, n=1):
        self.site += n
        return self.site - n

    def observe(self, t, name):
        """call recording object `name` of type t"""
        a = self.a
        n = len(a.leaves(t, "", True))
        if isinstance(t, SU):
            if t.tag not in self.obs:
                self.obs[t.tag] = "obs_" + t.tag
                self.top.append(a.observer(t, self.obs[t.tag], True))
            return "%s(%d, &%s);" % (self.obs[t.tag], self.nxt(n), name)
        return " ".join(a.ev(self.nxt(), l.ty, name + l.path) for l in a.leaves(t, "", True))

    def otype(self):
        r, a = self.r, self.a
        k = r.random()
        base = r.choice(a.types) if a.types and k < 0.6 else a.scalar()
        if isinstance(base, SU) and base.weight > 40:
            return base
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            base = Arr(base, r.choice([1, 2, 3, 4]))
        return base

    def dyn(self, ty, bits):
        r = self.r
        if isinstance(ty, SU):
            return "gs_%s" % ty.tag if ty.tag and ty.tag in self.gs else None
        if isinstance(ty, Int):
            if bits is not None:
                return r.choice(["dy_bit", "id_int(dy_bit)"])
            n = ty.name.replace(" ", "_")
            return r.choice(["dy_" + n, "id_%s(dy_%s)" % (n, n), "dy_int", "par", "par + 1", "(dy_int, par)", "par ? dy_int : 4"])
        if isinstance(ty, Flt):
            n = ty.name.replace(" ", "_")
            return r.choice(["dy_" + n, "id_%s(dy_%s)" % (n, n), "dy_int", "dy_double", "dy_float * 2"])
        if isinstance(ty, StrPtr):
            return "dy_str"
        if isinstance(ty, FnPtr):
            return None
        return {"int": r.choice(["&loc_i", "pool_i + par", "&pool_i[par]"]), "char": "pool_c + dy_char % 7", "double": None}[ty.to.name] \
            if ty.to.name != "int" else r.choice(["pool_i + par", "&pool_i[par]"])

    def declare(self, storage, n, dyn):
        """declaration text and observation text"""
        r, a = self.r, self.a
        t = self.otype()
        unsized = isinstance(t, Arr) and r.random() < 0.4
        if isinstance(t, SU) and dyn and r.random() < 0.15 and t.tag in self.gs:
            return "%s%s = gs_%s;" % (storage, decl(t, n), t.tag), [self.observe(t, n)]
        txt = a.init(t, dyn=dyn)
        if not isinstance(t, (Arr, SU)) and r.random() < 0.1 and not txt.startswith("{"):
            txt = "{ %s }" % txt
        d = decl(t, n)
        ob = []
        if unsized:
            m = r.randrange(1, t.n + 1)
            if t.of is INT and r.random() < 0.2:
                s = "".join(r.choice("abc012 ") for _ in range(r.randrange(0, 12)))
                txt, m = 'L"%s"' % s, len(s) + 1
            elif isinstance(t.of, Int) and t.of.size == 1 and r.random() < 0.5:
                s = "".join(r.choice("abc012 ") for _ in range(r.randrange(0, 12)))
                txt, m = '"%s"' % s, len(s) + 1
                if r.random() < 0.2:
                    txt = "{%s}" % txt
            else:
                xs = [a.init(t.of, None, None, False, dyn) for _ in range(m)]
                txt = "{%s%s}" % (", ".join(xs), r.choice(["", ","]))
            t = Arr(t.of, m)
            d = decl(Arr(t.of, None), n)
            ob.append("ev_u(%d, sizeof(%s));" % (self.nxt(), n))
        ob.append(self.observe(t, n))
        return "%s%s = %s;" % (storage, d, txt), ob

    def build(self):
        r, a = self.r, self.a
        for _ in range(r.randrange(1, 5)):
            a.struct()
        self.gs = set()
        g = []
        for t in a.types:
            if r.random() < 0.5:
                g.append("static %s = %s;" % (decl(t, "gs_" + t.tag), a.init(t)))
                self.gs.add(t.tag)
        names = []
        for ty in INTS + FLTS:
            nm = ty.name.replace(" ", "_")
            g.append("%s dy_%s = %s;" % (ty.name, nm, a.const(ty).rstrip("fL") if isinstance(ty, Flt) else
                                          a.const(ty) if ty is not INT and ty is not CHAR else str(r.randrange(1, 60))))
            g.append("static %s id_%s(%s x) { return x; }" % (ty.name, nm, ty.name))
        g.append('static char *dy_str = "dyn"; static int dy_bit = %d;' % r.choice([0, 1]))
        main = []
        for i in range(r.randrange(2, 7)):
            st = r.choice(["", "static ", "const ", "static const "])
            if "const" in st:
                st = "static "
            d, ob = self.declare(st, "g%d" % i, None)
            g.append(d)
            main += ob
        fns = []
        for i in range(r.randrange(2, 6)):
            ds, obs = [], []
            for k in range(r.randrange(1, 5)):
                st = r.choice(["", "", "", "static ", "register "])
                d, ob = self.declare("static " if st == "static " else "", "l%d_%d" % (i, k), self.dyn if st != "static " else None)
                ds.append(d)
                obs += ob
            body = ds + obs
            if r.random() < 0.3:
                d, ob = self.declare("", "n%d" % i, self.dyn)
                body += ["{", d] + ob + ["}"]
            if r.random() < 0.25:
                d, ob = self.declare("", "w%d" % i, self.dyn)
                body += ["for (par = 0; par < 3; par++) {", d] + ob + ["}"]
            fns.append("static void f%d(int par) {\n    %s\n}" % (i, "\n    ".join(body)))
            main.append("dirty(3); f%d(%d);" % (i, r.randrange(0, 9)))
        return "\n".join([MON_H + POOL + HELP] + a.defs + self.top + g + fns + ["int main(void) {\n    %s\n    return 0;\n}\n" % "\n    ".join(main)])


DIRECTED = {
    "d:anon-union": "struct S { union { char c; long l; }; int i; } s = { 1, 2 };\n"
                    "int main(void) { ev_i(1, s.c); ev_i(2, s.i); return 0; }\n",
    "d:anon-struct-braces": "struct S { struct { char c; long l; }; int i; } s = { { 1, 2 }, 3 };\n"
                            "int main(void) { ev_i(1, s.c); ev_i(2, s.l); ev_i(3, s.i); return 0; }\n",
    "d:anon-struct": "struct S { struct { char c; long l; }; int i; } s = { 1, 2, 3 };\n"
                     "int main(void) { struct S t = { 4, 5 }; ev_i(1, s.c); ev_i(2, s.l); ev_i(3, s.i); ev_i(4, t.c); ev_i(5, t.l); ev_i(6, t.i); return 0; }\n",
    "d:unsized-nested": "int a[][2] = { 1, 2, 3 }, b[][2] = { {1}, 2, 3, {4} };\n"
                        "int main(void) { int c[][3] = { 1, 2, 3, 4 }; int i; ev_u(1, sizeof a); ev_u(2, sizeof b); ev_u(3, sizeof c);\n"
                        "for (i = 0; i < 4; i++) ev_i(4, a[0][i]); for (i = 0; i < 6; i++) { ev_i(5, b[0][i]); ev_i(6, c[0][i]); } return 0; }\n",
    "d:large": "struct B { char c[200]; int i; } g = { \"x\" };\nint main(void) { int i, k; for (k = 0; k < 3; k++) { struct B b = { \"yy\" }; int a[100] = { 1, 2 };\n"
               "b.c[k + 5]++; a[k + 7] += 3; for (i = 0; i < 200; i++) ev_i(1, b.c[i] + g.c[i]); for (i = 0; i < 100; i++) ev_i(2, a[i]); ev_i(3, b.i); b.i = 4; } return 0; }\n",
}


class C07(Check):
    prop = "C07"
    rule = ("a case is one generated program declaring initialized objects of random types; every scalar of every object "
            "is recorded after initialization on a stack filled with garbage; distinct traces count")
    assumptions = ["gcc -O0 is the reference; a mismatch counts only if clang, gcc -O2 and the sanitizers confirm the "
                   "reference trace", "padding bytes and inactive union members are not observed"]

    def cases(self, tier):
        return sorted(DIRECTED) + ["p%d" % i for i in range(1200 if tier == "quick" else 12000)]

    def run(self, ctx, case, rng):
        return diff_case(ctx.tool, [("t.c", MON_H + DIRECTED[case] if case in DIRECTED else Inits(rng).build())])


CHECK = C07()
