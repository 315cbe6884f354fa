"""Programs whose statements are spread over lines and files in many ways, with the place of each statement (C21)."""
from .prog import MON_H


class Lines:
    """build() -> files; .where: {(file, line): statement id}; .text: {statement id: text}"""

    def __init__(self, rng, nfuncs=4, size=6, nest=3, split=0.1, files=True):
        self.r, self.nfuncs, self.size, self.nest, self.split, self.files = rng, nfuncs, size, nest, split, files
        self.uid = 0
        self.calls = []      # names of functions that can be called
        self.text = {}

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    # expressions, as tokens
    def leaf(self, loc):
        r = self.r
        return r.choice([["g%d" % r.randrange(4)], ["g%d" % r.randrange(4)], [r.choice(loc)] if loc else ["g0"], ["ar", "[", "%d" % r.randrange(4), "]"], ["st", ".", "m"],
                         ["p", "->", "m"], ["ar", "[", "g0", "&", "3", "]"], ["(", "unsigned", ")", "gd"]])

    def expr(self, loc, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return self.leaf(loc)
        k = r.random()
        if k < 0.26:
            return ["("] + self.expr(loc, d - 1) + ["?"] + self.expr(loc, d - 1) + [":"] + self.expr(loc, d - 1) + [")"]
        if k < 0.34:
            return ["("] + self.expr(loc, d - 1) + [r.choice(["&&", "||"])] + self.expr(loc, d - 1) + [")"]
        if k < 0.4:
            return [r.choice(["-", "~", "!"]), "("] + self.expr(loc, d - 1) + [")"]
        if k < 0.45:
            return ["ID", "("] + self.expr(loc, d - 1) + [")"]
        a, b = self.expr(loc, d - 1), self.expr(loc, d - 1)
        if r.random() < 0.2:
            return ["("] + a + [r.choice("+-*^"), "%d" % r.randrange(2, 99), ")"]
        if a == b:    # (a - a) | a can be folded to a, and a = a to nothing
            return a
        return ["("] + a + [r.choice(["+", "-", "*", "^", "|", "&", "<", ">", "==", ">> 1 |", "+"])] + b + [")"]

    def value(self, loc):
        """an expression or a call, whose order of evaluation doesn't matter if it's the only one of a statement"""
        r = self.r
        if self.calls and r.random() < 0.2:
            n, k = r.choice(self.calls)
            out = [n, "("]
            for i in range(k):
                out += ([","] if i else []) + self.expr(loc, 1)
            return out + [")", "+", "%d" % r.randrange(1, 9)]
        return self.expr(loc)

    def put(self, toks, ind, text_id=True, tail=""):
        """a statement or header: its tokens on one or more lines"""
        i = self.uid = self.uid + 1 if text_id else self.uid
        i = i if text_id else None
        lines, cur = [], ""
        for t in toks:
            if cur and self.r.random() < self.cut:
                lines.append(cur)
                cur = ""
                while self.r.random() < 0.1:
                    lines.append(self.r.choice(["", "/* in between */", "   "]))
            cur += (" " if cur else "") + t
        lines.append(cur + tail)
        pad = "    " * ind
        if i:
            self.text[i] = " ".join(toks)
        for x in lines:
            self.out.append((pad + x, i))
        return i

    def plain(self, text, ind):
        self.out.append(("    " * ind + text, None))

    def noise(self, ind):
        r = self.r
        while r.random() < 0.12:
            self.plain(r.choice(["", "/* a comment */", "/* a comment", ";", "#define N%d 1" % r.randrange(9), "#if 0", "#ifdef ID"]), ind)
            last = self.out[-1][0].strip()
            if last == "/* a comment":
                self.plain("   that goes on */", ind)
            elif last == "#if 0":
                self.plain("this is not here", ind)
                self.plain("#endif", ind)
            elif last == "#ifdef ID":
                self.plain("#endif", ind)
            elif last.startswith("#define"):
                self.plain("#undef " + last.split()[1], ind)

    def stmt(self, loc, ind, nest, loop):
        r = self.r
        self.noise(ind)
        k = r.random()
        if nest <= 0 or k < 0.55:
            c = r.randrange(9)
            if c == 0:
                self.put(["ev_u", "("] + [str(self.uid), ","] + self.expr(loc) + [")", ";"], ind)
            elif c == 1:
                self.put(["ar", "["] + self.expr(loc, 1) + ["&", "3", "]", "="] + self.expr(loc) + [";"], ind)
            elif c == 2:
                self.put([r.choice(["st . m", "p -> n", "g1", "st . b"]), r.choice(["+=", "=", "^="])] + self.expr(loc) + [";"], ind)
            elif c == 3:
                self.put(["g%d" % r.randrange(4), r.choice(["++", "--"]), ";"], ind)
            elif c == 4 and loc:
                self.put([r.choice(loc), r.choice(["=", "+="])] + self.expr(loc) + [";"], ind)
            elif c == 5:
                self.put(["gd", "=", "gd", "*", "0.5", "+", "("] + self.expr(loc) + ["&", "63", ")", ";"], ind)
            elif c == 6:
                self.put(["st2", "=", "st", ";", "g2", "=", "st2", ".", "m", "+"] + self.expr(loc, 1) + [";"], ind)
            else:
                self.put(["g%d" % r.randrange(4), "="] + self.value(loc) + [";"], ind)
            return
        if k < 0.68:
            self.put(["if", "("] + self.value(loc) + [")"], ind, tail=" {")
            self.block(loc, ind + 1, nest - 1, loop)
            if r.random() < 0.5:
                if r.random() < 0.5:
                    self.plain("}", ind)
                    self.plain("else {", ind)
                else:
                    self.plain("} else {", ind)
                self.block(loc, ind + 1, nest - 1, loop)
            self.plain("}", ind)
        elif k < 0.72:
            self.put(["if", "("] + self.value(loc) + [")"], ind)
            self.put(["g%d" % r.randrange(4), "="] + self.value(loc) + [";"], ind + 1)
        elif k < 0.8:
            v = self.name("i")
            self.plain("{", ind)
            self.plain("unsigned %s;" % v, ind)
            self.put(["for", "(", v, "=", "0", ";", v, "<", str(r.randrange(1, 4)), ";", v, "++", ")"], ind, tail=" {")
            self.block(loc + [v] if 0 else loc, ind + 1, nest - 1, True)
            self.plain("}", ind)
            self.plain("}", ind)
        elif k < 0.86:
            v = self.name("w")
            self.plain("{", ind)
            self.plain("unsigned %s;" % v, ind)
            self.put([v, "=", str(r.randrange(0, 4)), ";"], ind)
            self.put(["while", "(", v, "--", ")"], ind, tail=" {")
            self.block(loc, ind + 1, nest - 1, True)
            self.plain("}", ind)
            self.plain("}", ind)
        elif k < 0.91:
            v = self.name("d")
            self.plain("{", ind)
            self.plain("unsigned %s;" % v, ind)
            self.put([v, "=", str(r.randrange(1, 4)), ";"], ind)
            self.plain("do {", ind)
            self.block(loc, ind + 1, nest - 1, True)
            self.put(["}", "while", "(", "--", v, ")", ";"], ind)
            self.plain("}", ind)
        elif k < 0.97:
            self.put(["switch", "(", "("] + self.value(loc) + [")", "&", "3", ")"], ind, tail=" {")
            for c in r.choice([["case 0:"], ["case 1:", "default:"], ["default:", "case 2:"], ["case 1:", "case 0:", "case 2:"], ["case 0:", "default:", "case 3:", "case 1:"]]):
                self.plain(c, ind + 1)
                self.block(loc, ind + 2, nest - 1, loop)
                if r.random() < 0.7:
                    self.plain("break;", ind + 2)
            self.plain("}", ind)
        elif loop and r.random() < 0.6:
            self.put(["if", "("] + self.value(loc) + [")"], ind)
            self.plain(r.choice(["break;", "continue;"]), ind + 1)
        else:
            self.put(["if", "("] + self.value(loc) + [")"], ind)
            self.put(["return", "g1", "+"] + self.expr(loc) + [";"], ind + 1)

    def local(self, n, loc, ind):
        """a variable that lives in memory: code for one in a register can be moved or left out"""
        self.put(["unsigned", n, "="] + self.value(loc) + [";"], ind)
        self.put(["pu", "=", "&", n, ";"], ind)
        loc.append(n)

    def block(self, loc, ind, nest, loop):
        r = self.r
        loc = list(loc)
        if r.random() < 0.2:
            n = self.name("b")
            self.local(n, loc, ind)
        for _ in range(r.randrange(1, 4)):
            self.stmt(loc, ind, nest, loop)

    def function(self, n, k):
        r = self.r
        self.cut = r.choice([0, 0, self.split, 3 * self.split])
        params = ["a%d" % i for i in range(k)]
        self.plain("%sunsigned %s(%s) %s" % (r.choice(["", "static "]), n, ", ".join("unsigned " + x for x in params) or "void", "{"), 0)
        loc = list(params)
        for x in params:
            self.put(["pu", "=", "&", x, ";"], 1)
        for _ in range(r.randrange(3)):
            v = self.name("l")
            self.local(v, loc, 1)
        for _ in range(r.randrange(1, self.size)):
            self.stmt(loc, 1, self.nest, False)
        self.put(["return", "g0", "^"] + self.expr(loc) + [";"], 1)
        self.plain("}", 0)
        for _ in range(r.choice([0, 0, 1, 2])):
            self.plain("", 0)
        self.calls.append((n, k))

    def build(self):
        r = self.r
        main = []
        self.out = [(x, None) for x in MON_H.rstrip("\n").split("\n")] + [(x, None) for x in (
            "unsigned g0 = 3, g1 = 5, g2, g3 = 77, ar[4] = { 1, 2, 3 };", "unsigned *pu;", "double gd = 1.5;", "struct S { unsigned m, n; unsigned b : 7; } st = { 1, 2, 3 }, st2, *p = &st;", "#define ID(x) x")]
        parts = [self.out]
        for i in range(self.nfuncs):
            self.out = []
            self.function("fn%d" % i, r.randrange(4))
            parts.append(self.out)
        self.out = []
        self.cut = 0
        self.plain("int main(void) {", 0)
        for i in range(r.randrange(1, 3)):
            for n, k in self.calls:
                self.put(["g%d" % r.randrange(4), "=", n, "(", ", ".join(str(r.randrange(50)) for _ in range(k)), ")", "*", "3", ";"], 1)
        for x in ("g0", "g1", "g2", "g3", "st . m", "st . n", "ar [ 0 ]", "ar [ 1 ]"):
            self.put(["ev_u", "(", "1", ",", x, ")", ";"], 1)
        self.put(["return", "0", ";"], 1)
        self.plain("}", 0)
        parts.append(self.out)

        # into files
        self.where = {}
        files = {"t.c": []}
        fname, delta = "t.c", 0

        def cuts(part):
            """where a line of its own can be inserted: not within a statement, a comment or a conditional"""
            ok, depth = [], 0
            for j, (t, i) in enumerate(part):
                before = part[j - 1][0].strip() if j else ""
                if before.startswith("#if"):
                    depth += 1
                elif before.startswith("#endif"):
                    depth -= 1
                if not depth and not (j and i is not None and part[j - 1][1] == i) and before != "/* a comment":
                    ok.append(j)
            return ok

        def put(text, i):
            files["t.c"].append(text)
            if i:
                self.where[(fname, len(files["t.c"]) + delta)] = i
        for q, part in enumerate(parts):
            k = r.random() if self.files and q else 1
            ok = cuts(part)
            if k < 0.2:
                # all of it, or a piece, in an included file
                n = "inc%d.h" % q
                a, b = 0, len(part)
                if r.random() < 0.5:
                    a, b = sorted([r.choice(ok), r.choice(ok + [b])])
                for t, i in part[:a]:
                    put(t, i)
                put('#include "%s"' % n, None)
                files[n] = [t for t, _ in part[a:b]]
                for j, (t, i) in enumerate(part[a:b], 1):
                    if i:
                        self.where[(n, j)] = i
                for t, i in part[b:]:
                    put(t, i)
                continue
            at = r.choice(ok) if k < 0.4 else -1
            for j, (t, i) in enumerate(part):
                if j == at:
                    n = r.choice([1, 10, 3000]) + 5000 * q
                    if r.random() < 0.5:
                        fname = r.choice(["other%d.y", "sub/x%d.c"]) % q
                        put('#line %d "%s"' % (n, fname), None)
                    else:
                        put("#line %d" % n, None)
                    delta = n - len(files["t.c"]) - 1
                put(t, i)
        return {n: "\n".join(v) + "\n" for n, v in files.items()}
