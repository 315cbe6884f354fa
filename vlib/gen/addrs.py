"""Address constants in initializers of objects with static storage duration, next to the same expression at run time (C03)."""
from .prog import MON_H

ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
HEAD = """struct In { char c; short h[3]; long l; };
struct Out { char c; struct In in[4]; int m[5][6]; double d; char s[300]; };
static char ac[700]; static short as[90][4]; int ai[50]; static long al[40]; double ad[9]; struct Out so, ao[5]; static int fn1(void) { return 1; } int fn2(void) { return 2; }
extern int later[12];
"""


class Addrs:
    def __init__(self, r):
        self.r = r
        self.site = 0

    def num(self, n):
        """a constant expression of value n"""
        r = self.r
        k = r.random()
        if k < 0.6 or n < 0:
            return str(n) if n >= 0 else "(%d)" % n
        if k < 0.7:
            return "%dL" % n
        if k < 0.8:
            return "(%d - %d)" % (n + 7, 7)
        if k < 0.9:
            return "(sizeof(int) * %d + %d)" % (n // 4, n % 4) if n % 2 else "0x%x" % n
        return "'\\%o'" % n if n < 128 else "%du" % n

    def walk(self, e, pos, size, depth=None):
        """e, a pointer at element pos of size, plus constants"""
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2, 3]) if depth is None else depth):
            new = r.randint(0, size)
            n = new - pos
            k = r.random()
            if n >= 0:
                if k < 0.5:
                    e = "%s + %s" % (e, self.num(n))
                elif k < 0.7:
                    e = "%s + (%s)" % (self.num(n), e)
                elif k < 0.85 and new < size:
                    e = "&(%s)[%s]" % (e, self.num(n))
                else:
                    e = "%s - %s" % (e, self.num(-n))
            elif k < 0.7:
                e = "%s - %s" % (e, self.num(-n))
            elif k < 0.85 and new < size:
                e = "&(%s)[%s]" % (e, self.num(n))
            else:
                e = "%s + %s" % (e, self.num(n))
            if r.random() < 0.25:
                e = "(%s)" % e
            if r.random() < 0.1 and new < size:
                e = "&*(%s)" % e
            pos = new
        return e, pos

    def addr(self):
        """(target type, expression, observer with %s)"""
        r = self.r
        k = r.randrange(14)
        if k < 4:
            n = r.choice([0, 1, 5, 20, 60, 200, 300, 600])
            s = "".join(r.choice(ALPHA) for _ in range(n))
            cut = r.randint(0, n)
            lit = '"%s"' % s if r.random() < 0.7 else '"%s" "%s"' % (s[:cut], s[cut:])
            e, pos = self.walk(lit, 0, n)
            return "char *", e, "ev_s(@, %s)"
        for cond, t, base, size in ((k == 4, "char", "ac", 700), (k == 5, "int", "ai", 50), (k == 6, "long", "al", 40), (k == 7, "double", "ad", 9),
                                    (k == 8, "int", "later", 12)):
            if cond:
                start = r.randrange(size)
                b = r.choice([base, "&%s[%d]" % (base, start), "%s" % base])
                e, _ = self.walk(b, 0 if b == base else start, size)
                if r.random() < 0.15:
                    e = "1 ? %s : 0" % e
                return t + " *", e, "ev_i(@, (%%s) - %s)" % base
        if k == 9:
            i, j = r.randrange(90), r.randrange(4)
            b, at = r.choice([("as[%d]" % i, 0), ("&as[%d][%d]" % (i, j), j), ("*(as + %d)" % i, 0)])
            e, _ = self.walk(b, at, 4)
            return "short *", e, "ev_i(@, (%s) - &as[0][0])"
        if k == 10:
            i, j, m = r.randrange(5), r.randrange(4), r.randrange(3)
            o = r.choice(["so", "ao[%d]" % i])
            b, t, at, size = r.choice([("%s.in[%d].h" % (o, j), "short", 0, 3), ("&%s.in[%d].h[%d]" % (o, j, m), "short", m, 3), ("%s.m[%d]" % (o, j), "int", 0, 6),
                                       ("&%s.m[%d][%d]" % (o, j, m), "int", m, 6), ("%s.s" % o, "char", 0, 300), ("&%s.in[%d].l" % (o, j), "long", 0, 1),
                                       ("&%s.d" % o, "double", 0, 1), ("(&%s)->s" % o, "char", 0, 300), ("&(*&%s).in[%d].l" % (o, j), "long", 0, 1)])
            e, _ = self.walk(b, at, size)
            return t + " *", e, "ev_i(@, (char *) (%%s) - (char *) &%s)" % ("so" if o == "so" else "ao")
        if k == 11:
            e, _ = self.walk("(char *) %s" % r.choice(["&so", "ao", "&so.in[2]", "as", "al"]), 0, 20)
            base = e.split("(char *) ")[1].split(" ")[0].split(")")[0]
            return "char *", e, "ev_i(@, (%%s) - (char *) %s)" % base
        if k == 12:
            f = r.choice(["fn1", "&fn2", "fn2", "&fn1", "*fn1", "1 ? fn1 : fn2", "0 ? fn1 : &fn2"])
            return "int (*%s)(void)", f, "ev_i(@, (%s)())"
        # differences and null and integer pointers
        if r.random() < 0.5:
            e, _ = self.walk("(%s *) %s" % (r.choice(["char", "int", "long"]), r.choice(["0", "4096", "0x7fff0000L"])), 0, 500)
            return "void *", e, "ev_u(@, (unsigned long) (%s))"
        a, b = r.sample([0, 3, 17, 30, 39], 2)
        return "long", "&al[%d] - &al[%d]" % (a, b), "ev_i(@, (%s))"

    def ev(self, o, e):
        self.site += 1
        return "    " + o.replace("@", str(self.site)) % e + ";"

    def build(self):
        r = self.r
        top, main, locs = [HEAD], [], []
        n = 0

        def decl(t, name):
            return t % name if "%" in t else "%s%s" % (t if t.endswith("*") else t + " ", name)
        for _ in range(r.choice([10, 20, 40])):
            n += 1
            k = r.random()
            if k < 0.45:
                t, e, o = self.addr()
                top.append("%s%s = %s;" % (r.choice(["", "static ", "static "]), decl(t, "p%d" % n), e))
                main.append(self.ev(o, "p%d" % n))
                if r.random() < 0.4 and "later" not in e:
                    main.append(self.ev(o, e))
            elif k < 0.6:
                t, e, o = self.addr()
                locs.append("    static %s = %s;" % (decl(t, "q%d" % n), e))
                main.append(self.ev(o, "q%d" % n))
            elif k < 0.8:
                fs = [self.addr() for _ in range(r.choice([2, 3, 4]))]
                top.append("static struct { %s } s%d = { %s };" % (" ".join("%s%s;" % (r.choice(["", "", "char pad%d; " % i]), decl(t, "m%d" % i)) for i, (t, _, _) in enumerate(fs)), n, "@@"))
                txt = top[-1]
                ini = []
                for i, (t, e, o) in enumerate(fs):
                    if "pad%d;" % i in txt:
                        ini.append(str(r.randrange(100)))
                    ini.append(e)
                    main.append(self.ev(o, "s%d.m%d" % (n, i)))
                top[-1] = txt.replace("@@", ", ".join(ini))
            else:
                k = r.choice([2, 3, 6])
                es = [self.addr() for _ in range(30)]
                es = [x for x in es if x[0] == es[0][0] and "%" not in x[0]][:k]
                if not es:
                    continue
                top.append("static %s = { %s };" % (decl(es[0][0], "t%d[%d]" % (n, len(es) + r.choice([0, 0, 1]))), ", ".join(e for _, e, _ in es)))
                for i, (_, _, o) in enumerate(es):
                    main.append(self.ev(o, "t%d[%d]" % (n, i)))
        body = locs + ["    later[3] = 1; so.d = 1;"] + main
        return MON_H + "\n".join(top) + "\nint later[12];\nint main(void) {\n" + "\n".join(body) + "\n    return 0;\n}\n"
