"""Declarations of arbitrarily nested types, in all spellings, with objects reached through every derivation (C13)."""
import copy

from .core import FLTS, INTS, Flt
from .prog import MON_H

SPEC = {
    "char": [["char"]], "unsigned char": [["unsigned", "char"]], "short": [["short"], ["short", "int"], ["signed", "short"], ["signed", "short", "int"]],
    "unsigned short": [["unsigned", "short"], ["unsigned", "short", "int"]], "int": [["int"], ["signed"], ["signed", "int"]],
    "unsigned int": [["unsigned"], ["unsigned", "int"]], "long": [["long"], ["long", "int"], ["signed", "long"], ["signed", "long", "int"]],
    "unsigned long": [["unsigned", "long"], ["unsigned", "long", "int"]], "float": [["float"]], "double": [["double"]], "long double": [["long", "double"]],
}


class T:
    """kind: base (name), ptr, array (n), func (params), struct (tag, members)"""

    def __init__(self, kind, of=None, **kw):
        self.kind, self.of, self.q = kind, of, ""
        self.__dict__.update(kw)


class Decls:
    def __init__(self, r, n=5, depth=4, typedefs=0.25):
        self.r, self.n, self.depth, self.typedefp = r, n, depth, typedefs
        self.top, self.code = [], []
        self.uid = self.site = 0
        self.typedefs = {}

    def nm(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def s(self):
        self.site += 1
        return self.site

    # types ---------------------------------------------------------------------------------------------------------------------
    def base(self):
        r = self.r
        t = T("base", name=r.choice(FLTS if r.random() < 0.2 else INTS).name)
        t.q = "volatile" if r.random() < 0.08 else ""
        return t

    def type(self, d, ctx="object"):
        """a type that may appear as an object, a return value or a pointer's target"""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.12:
            return self.base() if r.random() < 0.8 else self.struct(d)
        if ctx == "target" and k < 0.4:
            return T("func", self.type(d - 1, "result"), params=[self.param(d - 2) for _ in range(r.choice([0, 1, 1, 2]))])
        if ctx != "result" and k < 0.62:
            return T("array", self.type(d - 1, "element"), n=r.choice([1, 2, 3, 5]))
        if k < 0.94:
            t = T("ptr", self.type(d - 1, "target"))
            t.q = "volatile" if r.random() < 0.08 else ""
            return t
        return self.struct(d - 1)

    def param(self, d):
        """parameters declared as arrays or functions are pointers"""
        r = self.r
        if d > 0 and r.random() < 0.25:
            return T("array", self.type(d - 1, "element"), n=r.choice([2, 3]), adjusted=True)
        if d > 0 and r.random() < 0.2:
            return T("func", self.type(d - 1, "result"), params=[self.base()], adjusted=True)
        return self.type(min(d, 2))

    def struct(self, d):
        tag = self.nm("S")
        ms = [(self.type(min(d - 1, 2)), self.nm("m")) for _ in range(self.r.choice([1, 2]))]
        t = T("struct", tag=tag, members=ms)
        self.top.append("%s %s { %s };" % (self.r.choice(["struct", "struct", "struct"]), tag, " ".join(self.declare(m, n, member=True) + ";" for m, n in ms)))
        return t

    # spelling ------------------------------------------------------------------------------------------------------------------
    def specifiers(self, t, storage=()):
        r = self.r
        words = list(r.choice(SPEC[t.name])) if t.kind == "base" else ["struct " + t.tag] if t.kind == "struct" else [t.name]
        if t.q:
            words.append(t.q)
        words += storage
        if t.kind == "base" and r.random() < 0.5:
            r.shuffle(words)
        else:
            words = list(storage) + [w for w in words if w not in storage]
            if r.random() < 0.2:
                r.shuffle(words)
        return " ".join(words)

    def declarator(self, t, name):
        """(base type, declarator text)"""
        r = self.r
        text, last = name, "name"
        while True:
            if r.random() < self.typedefp and t.kind in ("ptr", "array", "func") and last is not None and id(t) not in self.busy:
                td = self.typedef(t)
                return T("typedef", name=td), text
            if r.random() < 0.08 and text and last != "abstract":
                text = "(" + text + ")"
                if last == "ptr":
                    last = "name"
            if t.kind == "ptr":
                text = "*" + (t.q + " " if t.q else r.choice(["", "", " "])) + text
                last = "ptr"
            elif t.kind == "array":
                if last == "ptr":
                    text = "(" + text + ")"
                text += "[%s]" % r.choice([str(t.n), str(t.n), "%d - 1" % (t.n + 1), "(%d)" % t.n, "sizeof(char[%d])" % t.n]) if not getattr(t, "adjusted", False) or r.random() < 0.5 else "[]"
                last = "array"
            elif t.kind == "func":
                if last == "ptr":
                    text = "(" + text + ")"
                text += "(%s)" % (", ".join(self.declare(p, r.choice(["", "", self.nm("p")])) for p in t.params) or "void")
                last = "func"
            else:
                return t, text
            t = t.of

    busy = frozenset()

    def typedef(self, t):
        if t not in self.typedefs or self.r.random() < 0.3:
            n = self.nm("T")
            old = self.busy
            self.busy = old | {id(t)}
            b, d = self.declarator(t, n)
            self.busy = old
            self.top.append("%s %s;" % (self.specifiers(b, ["typedef"]), d))
            self.typedefs[t] = n
        return self.typedefs[t]

    def declare(self, t, name, storage=(), member=False):
        b, d = self.declarator(t, name)
        return (self.specifiers(b, list(storage)) + " " + d).strip()

    def typename(self, t):
        old, self.typedefp = self.typedefp, self.typedefp / 2
        b, d = self.declarator(t, "")
        self.typedefp = old
        return (self.specifiers(b, []) + " " + d).strip()

    # objects -------------------------------------------------------------------------------------------------------------------
    def value(self, t):
        return "%d.5" % self.r.randrange(90) if t.name in [f.name for f in FLTS] else str(self.r.randrange(120))

    def fill(self, lv, t, d=0):
        """statements that give the object lv of type t reachable, distinct contents"""
        r = self.r
        if t.kind == "base":
            self.code.append("%s = %s;" % (lv, self.value(t)))
        elif t.kind == "array":
            for i in {r.randrange(t.n), t.n - 1} if d < 2 else {r.randrange(t.n)}:
                self.fill("%s[%d]" % (lv, i), t.of, d + 1)
                self.known.setdefault(lv, []).append(i)
        elif t.kind == "struct":
            for m, n in t.members:
                self.fill("%s.%s" % (lv, n), m, d + 1)
        elif t.kind == "ptr":
            o = self.object(t.of, d + 1)
            if t.of.kind == "func":
                self.code.append("%s = %s%s;" % (lv, r.choice(["", "&"]), o))
            elif t.of.kind == "array":
                self.code.append("%s = &%s;" % (lv, o))
            else:
                self.code.append("%s = &%s;" % (lv, o))
            self.target[lv] = o

    def object(self, t, d=0):
        r = self.r
        if t.kind == "func":
            n = self.nm("f")
            ret = None
            if t.of.kind != "base":
                ret = self.nm("r")
                self.top.append(self.declare(t.of, ret, ["static"]) + ";")
                self.fill(ret, t.of, d + 1)
            # the definition needs parameter names
            ps = []
            body = []
            for p in t.params:
                pn = self.nm("p")
                ps.append(self.declare(p, pn))
                body.append("ev_u(%d, sizeof(%s));" % (self.s(), pn) if p.kind != "func" else "ev_i(%d, %s != 0);" % (self.s(), pn))
                if p.kind == "base":
                    body.append(self.ev(p, pn))
            proto = self.result_of(t, "%s(%s)" % (n, ", ".join(ps) or "void"))
            if r.random() < 0.5:
                self.top.append("static %s;" % self.result_of(t, "%s(%s)" % (n, ", ".join(self.declare(p, "") for p in t.params) or "void")))
            self.top.append("static %s { %s return %s; }" % (proto, " ".join(body), ret or self.value(t.of)))
            return n
        n = self.nm("x")
        self.top.append(self.declare(t, n, r.choice([[], ["static"]])) + ";")
        self.fill(n, t, d)
        return n

    def result_of(self, t, text):
        """declaration of a function whose declarator so far is text"""
        old, self.typedefp = self.typedefp, 0 if t.of.kind == "func" else self.typedefp
        b, d = self.declarator(t.of, text)
        self.typedefp = old
        return self.specifiers(b, []) + " " + d

    def ev(self, t, e):
        if t.name in [f.name for f in FLTS]:
            return "%s(%d, %s);" % ({"float": "ev_f", "double": "ev_d", "long double": "ev_ld"}[t.name], self.s(), e)
        return "ev_%s(%d, %s);" % ("u" if "unsigned" in t.name else "i", self.s(), e)

    def look(self, e, t, lv, prec=0, d=0):
        """records what is reached from the expression e of type t; lv is the object it denotes, if known"""
        r = self.r
        if self.looks > 60:
            return
        self.looks += 1
        P = lambda x, p: "(%s)" % x if p > 1 else x
        if t.kind != "func":
            self.code.append("ev_u(%d, sizeof(%s));" % (self.s(), e))
            if r.random() < 0.3:
                self.code.append("ev_u(%d, sizeof(%s));" % (self.s(), self.typename(t)))
        if t.kind == "base":
            self.code.append(self.ev(t, e))
            self.code.append("ev_i(%d, (0 ? %s : -1) < 0);" % (self.s(), P(e, prec)))
        elif t.kind == "array":
            for i in dict.fromkeys(self.known.get(lv, [0])):
                f = r.choice(["%s[%d]", "%s[%d]", "*(%s + %d)", "%s[%d]"])
                x = f % (P(e, prec), i)
                self.look(x, t.of, "%s[%d]" % (lv, i), 2 if x[0] == "*" else 0, d + 1)
        elif t.kind == "struct":
            for m, n in t.members:
                x = "%s.%s" % (P(e, prec), n)
                self.look(x, m, "%s.%s" % (lv, n), 0, d + 1)
        elif t.kind == "ptr":
            o = self.target.get(lv)
            if o is None:
                return
            if t.of.kind == "struct" and r.random() < 0.5:
                for m, n in t.of.members:
                    self.look("%s->%s" % (P(e, prec), n), m, "%s.%s" % (o, n), 0, d + 1)
                return
            if t.of.kind == "func":
                x, p = r.choice([(P(e, prec), 0), ("(*%s)" % e if not prec else "(*%s)" % e, 0), ("(**%s)" % e, 0)])
                self.look(x, t.of, o, p, d + 1)
            elif r.random() < 0.15:
                # the same through a cast from a pointer to void
                x = "*(%s)(void *)%s" % (self.typename(t), P(e, prec))
                self.look(x, t.of, o, 2, d + 1)
            else:
                x, p = r.choice([("*" + e, 2), ("(*%s)" % e, 0), ("%s[0]" % P(e, prec), 0)])
                self.look(x, t.of, o, p, d + 1)
        elif t.kind == "func":
            ret = self.fret.get(lv)
            args = []
            for p in t.params:
                o = self.arg(p)
                args.append(o)
            x = "%s(%s)" % (P(e, prec), ", ".join(args))
            if t.of.kind == "base":
                self.code.append(self.ev(t.of, x))
            elif t.of.kind == "struct":
                for m, n in t.of.members:
                    if m.kind == "base":
                        self.code.append(self.ev(m, "%s.%s" % (x, n)))
                self.code.append("ev_u(%d, sizeof(%s));" % (self.s(), x))
            else:
                self.look(x, t.of, ret, 0, d + 1)

    def arg(self, p):
        if p.kind == "base":
            return self.value(p)
        if p.kind == "array":
            p = copy.copy(p)
            p.adjusted = False
        return self.object(p, 3)

    def build(self):
        r = self.r
        self.known, self.target, self.fret = {}, {}, {}
        # remember what functions return
        org = self.object

        def object(t, d=0):
            before = self.uid
            n = org(t, d)
            if t.kind == "func" and t.of.kind != "base":
                self.fret[n] = "r%d" % (int(n[1:]) + 1)
            return n
        self.object = object
        bodies = []
        for i in range(self.n):
            self.looks = 0
            t = self.type(r.choice([2, 3, self.depth]), r.choice(["object", "object", "target"]))
            k = r.random()
            n = self.object(t)
            self.look(n, t, n)
            if t.kind != "func" and k < 0.3:
                # as a parameter
                f = self.nm("g")
                keep, self.code = self.code, []
                pn = self.nm("p")
                self.known[pn] = self.known.get(n, [0])
                for table in (self.target, self.known):
                    for key, v in list(table.items()):
                        if key.startswith((n + "[", n + ".")) or key == n:
                            table[pn + key[len(n):]] = v
                decl = self.declare(t, pn)
                self.looks = 0
                if t.kind != "array":
                    self.look(pn, t, pn)
                else:
                    self.code.append("ev_u(%d, sizeof(%s)); ev_u(%d, sizeof(*%s)); ev_i(%d, %s == %s);" % (self.s(), pn, self.s(), pn, self.s(), pn, n))
                body, self.code = self.code, keep
                late = [x for x in body if not x.startswith(n)]
                self.top.append("static void %s(%s) {\n  %s\n}" % (f, decl, "\n  ".join(body)))
                self.code.append("%s(%s);" % (f, n))
            elif t.kind != "func" and k < 0.5:
                # as a local variable
                ln = self.nm("l")
                if t.kind in ("base", "ptr") and r.random() < 0.6:
                    c = copy.copy(t)
                    c.q = r.choice(["const", "const", "const volatile", "volatile const", ""])
                    self.code.append("{ %s = %s; ev_u(%d, sizeof(%s)); ev_i(%d, %s == %s); }" % (self.declare(c, ln), n, self.s(), ln, self.s(), ln, n))
                self.code.append("{ %s; %sev_u(%d, sizeof(%s)); ev_u(%d, sizeof(%s)); }" % (self.declare(t, ln), "" if t.kind == "array" else "%s = %s; " % (ln, n), self.s(), ln, self.s(), self.typename(t)))
            bodies.append(self.code)
            self.code = []
        out = [MON_H, *self.top]
        for i, b in enumerate(bodies):
            out.append("static void t%d(void) {\n  %s\n}" % (i, "\n  ".join(b)))
        out.append("int main(void) { %s return 0; }" % " ".join("t%d();" % i for i in range(len(bodies))))
        return "\n".join(out) + "\n"
