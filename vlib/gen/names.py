"""Nested scopes that reuse a handful of identifiers in every name space, recording at each use what was found (C13)."""
from .prog import MON_H

BASES = ["char", "short", "int", "long", "unsigned char", "unsigned short", "unsigned", "unsigned long", "double"]
POOL = list("abcde")


class Rec:
    def __init__(self, kw, tag):
        self.kw, self.tag, self.ms, self.complete = kw, tag, [], False


class Scope:
    def __init__(self, name):
        self.name, self.ord, self.tag = name, {}, {}


class Names:
    """types: ('b', name) | ('p', T) | ('a', n, T) | ('s', Rec); ordinary names: ('var', T, usable) | ('const',) | ('type', T) | ('fn', T, nparams)"""

    def __init__(self, r, n=4, depth=3, stmts=7):
        self.r, self.n, self.depth, self.stmts = r, n, depth, stmts
        self.scopes = [Scope("file")]
        self.site = 0
        self.val = 0
        self.uid = 0
        self.pool = r.sample(POOL, r.choice([2, 3, 4, 5]))

    # helpers -------------------------------------------------------------------------------------------------------------------
    def s(self):
        self.site += 1
        return self.site

    def v(self):
        self.val = (self.val * 7 + 3) % 101 + 1
        return self.val

    def nm(self):
        self.uid += 1
        return "u%d" % self.uid

    def look(self, name, space="ord"):
        for sc in reversed(self.scopes):
            d = getattr(sc, space)
            if name in d:
                return d[name]
        return None

    def visible(self, kind):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for k, v in sc.ord.items():
                if k not in seen:
                    seen.add(k)
                    if v[0] == kind:
                        out.append((k, v))
        return out

    def free(self, space="ord"):
        cur = getattr(self.scopes[-1], space)
        free = [p for p in self.pool if p not in cur]
        return self.r.choice(free) if free and self.r.random() < 0.93 else None

    def const(self):
        """a constant expression of small positive value"""
        r = self.r
        cs = [k for k, _ in self.visible("const")]
        if cs and r.random() < 0.6:
            c = r.choice(cs)
            return r.choice(["%s", "(%s)", "%s + 1", "(%s) + 1", "%s %% 5 + 1"]) % c
        ts = [k for k, v in self.visible("type") if self.complete(v[1])]
        if ts and r.random() < 0.5:
            return "sizeof(%s)" % r.choice(ts)
        return str(self.v())

    def complete(self, t):
        return t[0] in "bp" or (t[0] == "a" and self.complete(t[2])) or (t[0] == "s" and t[1].complete)

    # types ---------------------------------------------------------------------------------------------------------------------
    def recs(self, complete=True):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for k, v in sc.tag.items():
                if k not in seen:
                    seen.add(k)
                    if isinstance(v, Rec) and (v.complete or not complete):
                        out.append(v)
        return out + [v[1][1] for _, v in self.visible("type") if v[1][0] == "s" and (v[1][1].complete or not complete)]

    def type(self, kinds="bpas"):
        r = self.r
        while True:
            k = r.random()
            if k < 0.55:
                return ("b", r.choice(BASES))
            if k < 0.7 and "p" in kinds:
                return ("p", ("b", r.choice(BASES)))
            if k < 0.82 and "a" in kinds:
                return ("a", r.choice([1, 2, 3, 4]), ("b", r.choice(BASES)))
            rs = self.recs()
            if rs and "s" in kinds:
                return ("s", r.choice(rs))

    def spell(self, t, name):
        """(specifiers, declarator), or None if the type can't be named here"""
        r = self.r
        for k, v in r.sample(self.visible("type"), len(self.visible("type"))):
            if v[1] == t and r.random() < 0.75:
                return k, name
        if t[0] == "b":
            return t[1], name
        if t[0] == "s":
            tag = t[1].tag
            if tag and self.look(tag, "tag") is t[1]:
                return "%s %s" % (t[1].kw, tag), name
            ks = [k for k, v in self.visible("type") if v[1] == t]
            return (r.choice(ks), name) if ks else None
        if t[0] == "p":
            return self.spell(t[1], "*" + name)
        if "*" in name:
            name = "(%s)" % name
        return self.spell(t[2], "%s[%d]" % (name, t[1]))

    # declarations --------------------------------------------------------------------------------------------------------------
    def record(self, tag, depth=0):
        """(Rec, text of its specifier); declares the tag in the current scope"""
        r = self.r
        cur = self.scopes[-1].tag
        old = cur.get(tag) if tag else None
        rec = old if isinstance(old, Rec) else Rec(r.choice(["struct", "struct", "union"]), tag)
        if tag:
            cur[tag] = rec
        ms = []
        for m in r.sample(POOL, r.choice([1, 2, 3])):
            k = r.random()
            if k < 0.15 and tag:
                ms.append((m, ("p", ("s", rec)), "%s %s *%s;" % (rec.kw, tag, m)))
                continue
            if k < 0.3 and depth < 2:
                t2 = self.free("tag")
                if t2 and t2 not in cur:
                    sub, text = self.record(t2, depth + 1)
                    ms.append((m, ("s", sub), "%s %s;" % (text, m)))
                    continue
            if k < 0.4:
                cs = [c for c, _ in self.visible("const")]
                w = "%s %% 7 + 3" % r.choice(cs) if cs else r.choice(["3", "7", "9"])
                ms.append((m, ("f",), "%s %s : %s;" % (r.choice(["int", "unsigned"]), m, w)))
                continue
            if k < 0.5:
                ms.append((m, ("c",), "char %s[%s];" % (m, self.const())))
                continue
            t = self.type()
            sp = self.spell(t, m)
            if not sp:
                continue
            ms.append((m, t, "%s %s;" % sp))
        if not ms:
            ms.append(("a", ("b", "int"), "int a;"))
        rec.ms = [(m, t) for m, t, _ in ms]
        rec.complete = True
        return rec, "%s%s { %s }" % (rec.kw, " " + tag if tag else "", " ".join(x for _, _, x in ms))

    def access(self, rec, expr):
        """an lvalue of arithmetic type in the record, or None"""
        r = self.r
        ms = rec.ms[:]
        r.shuffle(ms)
        for m, t in ms:
            if t[0] in "bf":
                return "%s.%s" % (expr, m)
            if t[0] == "c":
                return "%s.%s[0]" % (expr, m)
            if t[0] == "a" and t[2][0] == "b":
                return "%s.%s[%d]" % (expr, m, r.randrange(t[1]))
            if t[0] == "s":
                a = self.access(t[1], "%s.%s" % (expr, m))
                if a:
                    return a
        return None

    def values(self):
        """all expressions of arithmetic value with lvalue flag"""
        out = []
        for k, v in self.visible("var"):
            t = v[1]
            if t[0] == "b":
                out.append((k, True))
            elif t[0] == "p":
                out.append(("*" + k, True))
            elif t[0] == "a":
                out.append(("%s[%d]" % (k, self.r.randrange(t[1])), True))
        out += [(k, False) for k, _ in self.visible("const")]
        return out

    def arith(self):
        r = self.r
        vs = self.values()
        if not vs or r.random() < 0.2:
            return str(self.v())
        return r.choice(vs)[0]

    def init(self, t, name, static):
        """the text of an initialiser or None"""
        r = self.r
        if t[0] == "b":
            self_ok = not static and r.random() < 0.1
            return "sizeof(%s)" % name if self_ok else self.const() if static or r.random() < 0.6 else "(int) (%s)" % self.arith_safe(name)
        if t[0] == "p":
            cs = [k for k, v in self.visible("var") if v[1] == t[1] and k != name and (not static or v[2] == "static")]
            return "&" + r.choice(cs) if cs else None
        if t[0] == "a":
            return "{ %s }" % ", ".join(self.const() for _ in range(t[1]))
        return ""

    def arith_safe(self, name):
        for _ in range(5):
            x = self.arith()
            if x.lstrip("*").split("[")[0] != name:
                return x
        return str(self.v())

    def declare(self, glob=False):
        """one declaration; returns statements"""
        r = self.r
        cur = self.scopes[-1]
        k = r.random()
        if k < 0.45:
            return self.variables(glob)
        if k < 0.6:
            name = self.free()
            if not name:
                return []
            t = self.type()
            if r.random() < 0.3:
                tag = self.free("tag") if r.random() < 0.7 else None
                rec, text = self.record(tag)
                cur.ord[name] = ("type", ("s", rec))
                return ["typedef %s %s;" % (text, name)]
            sp = self.spell(t, name)
            if not sp:
                return []
            cur.ord[name] = ("type", t)
            return [r.choice(["typedef %s %s;" % sp] * 3 + ["%s typedef %s;" % sp])]
        if k < 0.75:
            tag = self.free("tag") if r.random() < 0.5 else None
            es = []
            for _ in range(r.choice([1, 2, 3])):
                e = self.free()
                if e:
                    c = r.choice(["", " = " + self.const()]) if es else " = " + self.const()
                    es.append(e + c)
                    cur.ord[e] = ("const",)
            if not es:
                return []
            if tag:
                cur.tag[tag] = "enum"
            return ["enum %s{ %s };" % (tag + " " if tag else "", ", ".join(es))]
        tag = self.free("tag")
        if not tag:
            return []
        if r.random() < 0.2:
            rec = Rec(r.choice(["struct", "union"]), tag)
            cur.tag[tag] = rec
            out = ["%s %s;" % (rec.kw, tag)]
            if r.random() < 0.8:
                name = self.free("tag")
                if name:
                    out.append("%s %s { %s %s *%s; char b[%s]; };" % ("struct", name, rec.kw, tag, "a", self.const()))
                    r2 = Rec("struct", name)
                    r2.ms, r2.complete = [("a", ("p", ("s", rec))), ("b", ("c",))], True
                    cur.tag[name] = r2
                if cur.tag[tag] is rec:
                    out.append(self.record(tag)[1] + ";")
            return out
        rec, text = self.record(tag)
        name = self.free() if r.random() < 0.4 else None
        if name:
            cur.ord[name] = ("var", ("s", rec), "static" if glob else "")
            return ["%s %s;" % (text, name)] + ([] if glob else self.use_var(name, ("s", rec)))
        return [text + ";"]

    def variables(self, glob):
        r = self.r
        cur = self.scopes[-1]
        static = glob or r.random() < 0.2
        name = self.free()
        if not name:
            return []
        t = self.type()
        old = self.look(name)
        if t[0] == "b" and r.random() < 0.25 and old:
            # the size of the outer one as an array bound
            if old[0] in ("var", "type") and self.complete(old[1]):
                cur.ord[name] = ("var", ("a", 1, ("b", "char")), "static" if static else "")
                return ["%schar %s[sizeof(%s)] = { %d };" % ("static " if static else "", name, name, self.v())] + ([] if glob else ["ev_u(%d, sizeof %s);" % (self.s(), name)])
        sp = self.spell(t, name)
        if not sp:
            return []
        cur.ord[name] = ("var", t, "static" if static else "")
        i = self.init(t, name, static)
        if i is None:
            cur.ord.pop(name)
            return []
        decls = ["%s%s" % (sp[1], " = " + i if i else "")]
        if t[0] == "b" and r.random() < 0.4:
            # more declarators that refer to what was just declared
            n2 = self.free()
            if n2:
                k = r.random()
                if k < 0.4 and not static:
                    decls.append("%s = %s + 1" % (n2, name))
                    t2 = t
                elif k < 0.7:
                    decls.append("*%s = &%s" % (n2, name))
                    t2 = ("p", t)
                else:
                    decls.append("%s[sizeof %s] = { %d }" % (n2, name, self.v()))
                    t2 = ("a", 1, t)
                if t2 == t and sp[0] != t[1] and False:
                    pass
                cur.ord[n2] = ("var", t2, "static" if static else "")
        q = "static " if static and r.random() < (0.5 if glob else 2) else "register " if not static and len(decls) == 1 and t[0] == "b" and False else ""
        out = ["%s%s %s;" % (q, sp[0], ", ".join(decls))]
        if t[0] == "s" and not glob:
            out += self.use_var(name, t)
        return out

    # uses ----------------------------------------------------------------------------------------------------------------------
    def use_var(self, k, t):
        r = self.r
        if t[0] == "s":
            a = self.access(t[1], k)
            out = ["ev_u(%d, sizeof %s);" % (self.s(), k)]
            if a:
                out.append("%s = %d; ev_d(%d, %s);" % (a, self.v() % 4, self.s(), a))
            return out
        return []

    def use(self):
        r = self.r
        k = r.random()
        names = sorted({n for sc in self.scopes for n in sc.ord})
        if not names:
            return []
        if k < 0.5:
            n = r.choice(names)
            d = self.look(n)
            if d is None or d[0] == "self":
                return []
            if d[0] == "const":
                return ["ev_i(%d, %s);" % (self.s(), n)]
            if d[0] == "type":
                if not self.complete(d[1]):
                    return []
                x = r.choice(["sizeof(%s)", "sizeof(%s *)", "sizeof(%s[3])", "sizeof(%s) * 2", "sizeof (%s) + 1"]) % n
                return ["ev_u(%d, %s);" % (self.s(), x)]
            if d[0] == "fn":
                return ["ev_i(%d, %s(%s));" % (self.s(), n, ", ".join("(int) (%s)" % self.arith() for _ in range(d[2])))]
            if d[1][0] == "s":
                return self.use_var(n, d[1])
            x = n if d[1][0] == "b" else "*" + n
            if r.random() < 0.3:
                return ["ev_u(%d, sizeof %s);" % (self.s(), n)]
            if r.random() < 0.3:
                return ["%s = %s; ev_d(%d, %s);" % (x, "%d" % self.v(), self.s(), x)]
            return ["ev_d(%d, %s);" % (self.s(), x)]
        if k < 0.68:
            # the meaning of (x) - y and the like depends on what x is
            ts = [(n, d) for n, d in self.visible("type") if d[1][0] == "b"]
            vs = [n for n, d in self.visible("var") if d[1][0] == "b"] + [n for n, _ in self.visible("const")]
            xs = [n for n, _ in ts] + vs
            if xs and vs:
                return ["ev_d(%d, (%s) %s %s);" % (self.s(), r.choice(xs), r.choice(["-", "+", "-", "-"]), r.choice(vs))]
            return []
        if k < 0.8:
            tags = [(t, self.look(t, "tag")) for t in sorted({t for sc in self.scopes for t in sc.tag})]
            tags = [(t, d) for t, d in tags if d == "enum" or d.complete]
            if not tags:
                return []
            t, d = r.choice(tags)
            if d == "enum":
                return ["ev_u(%d, sizeof(enum %s));" % (self.s(), t)]
            out = ["ev_u(%d, sizeof(%s %s));" % (self.s(), d.kw, t)]
            return out
        if k < 0.9 and self.labels:
            l = self.labels.pop()
            x = self.s()
            mid = r.choice(["ev_b(%d);" % self.s(), "{ int %s = 4; ev_i(%d, %s); }" % (l, self.s(), l)])
            return ["goto %s; %s" % (l, mid), "%s: ev_b(%d);" % (l, x)] if r.random() < 0.7 else \
                ["{ static int z; z++; if (z & 1) goto %s; %s %s: ev_i(%d, z); }" % (l, mid, l, x)]
        cs = [n for n, _ in self.visible("const")]
        if cs:
            c = r.choice(cs)
            return ["switch ((int) (%s)) { case %s: ev_b(%d); break; default: ev_b(%d); }" % (self.arith() if r.random() < 0.4 else c, c, self.s(), self.s())]
        return []

    def ambiguous(self):
        """x * y; declares y if x is a type"""
        r = self.r
        ts = [(n, d[1]) for n, d in self.visible("type") if d[1][0] in "bs"]
        cur = self.scopes[-1].ord
        if ts and r.random() < 0.6:
            n, t = r.choice(ts)
            y = self.free()
            if not y:
                return []
            cs = [k for k, v in self.visible("var") if v[1] == t and k != y and k != n]
            if t[0] == "b" and cs and y != n:
                cur[y] = ("var", ("p", t), "")
                return ["%s * %s;" % (n, y), "%s = &%s;" % (y, r.choice(cs))] if True else []
            return []
        vs = [n for n, d in self.visible("var") if d[1][0] == "b"]
        if len(vs) > 1:
            x, y = r.sample(vs, 2)
            return ["%s * %s;" % (x, y)]
        return []

    def externs(self):
        """a block in which a hidden object or function of file scope is declared again"""
        r = self.r
        gs = [(k, v) for k, v in self.scopes[0].ord.items() if v[0] == "fn" or (v[0] == "var" and v[1][0] == "b" and self.global_linkage.get(k))]
        gs = [(k, v) for k, v in gs if k not in self.scopes[-1].ord]
        if not gs:
            return []
        k, v = r.choice(gs)
        sp = self.spell(v[1], k) if v[0] == "var" else (v[3], k)
        if v[0] == "var":
            if self.look(sp[0]) and sp[0] == k:
                return []
            self.scopes[-1].ord[k] = ("var", v[1], "static")
            return ["extern %s %s;" % sp, "ev_d(%d, %s);" % (self.s(), k)]
        if any(sc.name != "file" and k in sc.ord and sc.ord[k][0] == "type" for sc in self.scopes) and False:
            return []
        self.scopes[-1].ord[k] = v
        return ["%sint %s(%s);" % (r.choice(["", "extern "]), k, ", ".join(["int"] * v[2]) or "void")]

    # blocks --------------------------------------------------------------------------------------------------------------------
    def block(self, depth, params=()):
        r = self.r
        out = []
        first = r.random() < 0.7
        for i in range(self.stmts):
            k = r.random()
            if k < 0.4 and (first or r.random() < 0.7):
                out += self.declare()
            elif k < 0.47:
                out += self.ambiguous()
            elif k < 0.52:
                out += self.externs()
            elif k < 0.66 and depth > 0:
                out += self.nested(depth)
            else:
                out += self.use()
        return out

    def nested(self, depth):
        r = self.r
        head = r.choice(["", "", "if (%d)" % r.choice([0, 1, 1]), "do", "for", "while", "else", "switch"])
        self.scopes.append(Scope("block"))
        n = self.nm()
        body = self.block(depth - 1)
        self.scopes.pop()
        b = "{ %s }" % "\n".join(body)
        if head == "do":
            return ["{ int %s = 0; do %s while (%s++ < 1); }" % (n, b, n)]
        if head == "for":
            return ["{ int %s; for (%s = 0; %s < 2; %s++) %s }" % (n, n, n, n, b)]
        if head == "while":
            return ["{ int %s = 2; while (%s--) %s }" % (n, n, b)]
        if head == "else":
            self.scopes.append(Scope("block"))
            b2 = "{ %s }" % "\n".join(self.block(depth - 1))
            self.scopes.pop()
            return ["if (%s > 50) %s else %s" % (self.arith(), b, b2)]
        if head == "switch":
            return ["switch (%d) { default: %s }" % (r.randrange(3), b)]
        return [(head + " " + b).strip()]

    def function(self, i):
        r = self.r
        file = self.scopes[0]
        name = self.free() if r.random() < 0.35 else None
        name = name or "f%d" % i
        np = r.choice([0, 1, 2, 3])
        self.labels = r.sample(self.pool, r.randrange(len(self.pool) + 1))
        self.scopes.append(Scope("function"))
        ps = []
        for _ in range(np):
            p = self.free() or self.nm()
            ts = [k for k, v in self.visible("type") if v[1] == ("b", "int")]
            sp = r.choice(ts) if ts and r.random() < 0.6 else "int"
            ps.append("%s %s" % (sp, p))
            self.scopes[-1].ord[p] = ("var", ("b", "int"), "")
        params = self.scopes.pop()
        file.ord[name] = ("fn", ("b", "int"), np, "int")
        pre = []
        if r.random() < 0.3:
            pre = ["int %s(%s);" % (name, ", ".join("int" + r.choice(["", " " + x]) for x in r.sample(POOL, np)) or "void")]
        file.ord.pop(name)
        # a call of itself in the body would not end, so it's invisible there unless declared by externs()
        self.scopes.append(params)
        hidden = name in self.pool
        if hidden and name not in params.ord:
            params.ord[name] = ("self",)
        body = self.block(self.depth)
        ret = "return %s;" % ("(int) (%s)" % self.arith())
        self.scopes.pop()
        file.ord[name] = ("fn", ("b", "int"), np, "int")
        self.fns.append((name, np))
        return pre + ["int %s(%s) {" % (name, ", ".join(ps) or "void")] + body + [ret, "}"]

    def build(self):
        r = self.r
        self.fns, self.labels = [], []
        self.global_linkage = {}
        out = []
        for i in range(self.n):
            for _ in range(r.choice([0, 1, 2])):
                before = set(self.scopes[0].ord)
                d = self.declare(True)
                for k in set(self.scopes[0].ord) - before:
                    if d and not d[0].startswith("static") and self.scopes[0].ord[k][0] == "var" and self.scopes[0].ord[k][1][0] == "b":
                        self.global_linkage[k] = True
                out += d
            out += self.function(i)
        main = ["int main(void) {"]
        for k in range(2):
            for f, np in self.fns:
                main.append("ev_i(%d, %s(%s));" % (self.s(), f, ", ".join(str(self.v()) for _ in range(np))))
        main += ["return 0; }"]
        return MON_H + "\n".join(out + main) + "\n"
