"""Pairs of types and uses that require the two to be compatible (C18)."""

PRE = """struct A { int a; }; struct B { int a; }; struct I; struct J; union U { int a; }; union V { int a; };
enum E { E1 }; enum F { F1 };
"""
BASE = ["char", "short", "int", "long", "float", "double", "long double", "struct A", "struct B", "union U", "union V", "struct I", "struct J"]
INCOMPLETE = ("struct I", "struct J")


def gen(r, d, where="obj"):
    """where: obj (anything), ret (no array or function), elem (no function, void or incomplete type), param"""
    k = r.random()
    if d <= 0 or k < 0.3:
        while True:
            b = r.choice(BASE)
            if b in INCOMPLETE and where != "target":
                continue
            return ("b", b)
    if k < 0.6 or where in ("ret", "param") and k < 0.75:
        if r.random() < 0.1:
            return ("p", ("b", "void"))
        return ("p", gen(r, d - 1, "target"))
    if k < 0.75:
        return ("a", r.choice([1, 2, 3, 4]), gen(r, d - 1, "elem"))
    if where in ("elem", "ret", "param"):
        return ("p", func(r, d - 1))
    return func(r, d - 1)


def func(r, d):
    ret = ("b", "void") if r.random() < 0.2 else gen(r, d, "ret")
    n = r.choice([0, 1, 1, 2, 3])
    return ("f", ret, tuple(gen(r, d, "param") for _ in range(n)), n > 0 and r.random() < 0.25)


def text(t, name):
    if t[0] == "b":
        return t[1] + (" " + name if name else "")
    if t[0] == "p":
        inner = "*" + name
        if t[1][0] in "af":
            inner = "(" + inner + ")"
        return text(t[1], inner)
    if t[0] == "a":
        return text(t[2], "%s[%s]" % (name, t[1] or ""))
    return text(t[1], "%s(%s)" % (name, ", ".join([text(p, "") for p in t[2]] + (["..."] if t[3] else [])) or "void"))


def mutate(r, t, where="obj"):
    """a type that differs from t in one place"""
    if t[0] == "b":
        return ("b", r.choice([b for b in BASE if b != t[1] and (b in INCOMPLETE) <= (where == "target")]))
    if t[0] == "p":
        if r.random() < 0.15:
            return ("p", t)
        if r.random() < 0.1 and t[1][0] not in "af" and (where == "target" or t[1][0] != "b" or t[1][1] not in INCOMPLETE + ("void",)):
            return t[1]
        return ("p", mutate(r, t[1], "target"))
    if t[0] == "a":
        if r.random() < 0.4:
            return ("a", r.choice([n for n in range(1, 6) if n != t[1]]), t[2])
        return ("a", t[1], mutate(r, t[2], "elem"))
    k = r.random()
    if k < 0.2:
        return ("f", mutate(r, t[1], "ret"), t[2], t[3])
    if k < 0.4 and t[2]:
        return ("f", t[1], t[2], not t[3])
    if k < 0.55:
        return ("f", t[1], t[2] + (gen(r, 0, "param"),), t[3])
    if t[2]:
        i = r.randrange(len(t[2]))
        if k < 0.65 and (len(t[2]) > 1 or not t[3]):
            return ("f", t[1], t[2][:i] + t[2][i + 1:], t[3])
        return ("f", t[1], t[2][:i] + (mutate(r, t[2][i], "param"),) + t[2][i + 1:], t[3])
    return ("f", mutate(r, t[1], "ret"), t[2], t[3])


def lenient(a, b):
    """whether they only differ in a pointer in the place of an array, which wcc's tests declare compatible"""
    if a[0] in "pa" and b[0] in "pa":
        if a[0] == b[0] == "a" and a[1] != b[1]:
            return False
        return lenient(a[-1], b[-1])
    if a[0] != b[0]:
        return False
    if a[0] == "b":
        return a[1] == b[1]
    return lenient(a[1], b[1]) and len(a[2]) == len(b[2]) and a[3] == b[3] and all(lenient(x, y) for x, y in zip(a[2], b[2]))


def pair(r):
    """(source with T2 == T1, source with the other T2, description) or None"""
    t1 = gen(r, r.choice([1, 2, 3]))
    t2 = mutate(r, t1)
    if r.random() < 0.5:
        t1, t2 = t2, t1
    if lenient(t1, t2):
        return None
    uses = ["redecl", "redecl", "define"]
    if t1[0] == "p" and t2[0] == "p" and ("b", "void") not in (t1[1], t2[1]):
        uses += ["ternary"]
        # wcc's tests compare pointers to different function types
        if t1[1][0] != "f" or t2[1][0] != "f":
            uses += ["eq", "ne"]
        if t1[1][0] != "f" and t2[1][0] != "f":
            uses += ["less"]
        sized = lambda t: t[0] not in "f" and not (t[0] == "b" and t[1] in INCOMPLETE)
        if sized(t1[1]) and sized(t2[1]):
            uses += ["minus"]
    if t1[0] == "b" and t2[0] == "b" and "struct" in t1[1] + t2[1] and t1[1].split()[0] == t2[1].split()[0]:
        uses += ["assign", "arg", "return", "ternary"]
    u = r.choice(uses)

    def src(a, b):
        o = [PRE]
        if u == "redecl":
            if a[0] != "f" and r2:
                return "".join(o + ["extern %s;\n" % text(a, "x"), "extern %s;\n" % text(b, "x")])
            return "".join(o + ["%s%s;\n" % ("" if a[0] == "f" else "extern ", text(a, "x")), "%s%s;\n" % ("" if b[0] == "f" else "extern ", text(b, "x"))])
        if u == "define":
            if b[0] == "f" and a[0] == "f":
                # the definition's parameters have names
                ps = ", ".join([text(p, "p%d" % i) for i, p in enumerate(b[2])] + (["..."] if b[3] else [])) or "void"
                f = text(b[1], "x(%s)" % ps)
                body = " { }" if b[1] == ("b", "void") else " { static %s; return v; }" % text(b[1], "v")
                return "".join(o + ["%s;\n" % text(a, "x"), f + body + "\n"])
            return "".join(o + ["extern %s;\n" % text(a, "x"), "%s;\n" % text(b, "x")])
        o += ["extern %s;\n" % text(a, "x"), "extern %s;\n" % text(b, "y")]
        e = {"eq": "int f(void) { return x == y; }", "ne": "int f(int n) { if (n && x != y) return 2; return 0; }",
             "less": "int f(void) { return x < y || x >= y; }", "minus": "long f(void) { return x - y; }",
             "ternary": "void f(int n) { n ? x : y; }", "assign": "void f(void) { x = y; }",
             "return": text(a, "f(void)") + " { return y; }", "arg": "void g(%s); void f(void) { g(y); }" % text(a, "")}[u]
        return "".join(o + [e + "\n"])
    r2 = r.random() < 0.5
    return src(t1, t1), src(t1, t2), "%s: %s / %s" % (u, text(t1, "x"), text(t2, "x")), u
