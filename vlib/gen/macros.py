"""Random macro definitions and uses, and a tokenizer of preprocessed text."""
import re

TOKEN = re.compile(r"""
    [ \t\f\v\r]+ | (?P<nl>\n) |
    (?P<tok> L?"(?:[^"\\\n]|\\.)*" | L?'(?:[^'\\\n]|\\.)*' |
      \.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.])* | [A-Za-z_][A-Za-z_0-9]* |
      \.\.\. | <<= | >>= | -> | \+\+ | -- | << | >> | <= | >= | == | != | && | \|\| |
      \*= | /= | %= | \+= | -= | &= | ^= | \|= | \^= | \#\# | . )
""", re.X | re.S)
MARK = re.compile(r'^#(?: line)? (\d+) "((?:[^"\\]|\\.)*)"[ 0-9]*$')


def tokens(text):
    """[(spelling, file, line)] of preprocessed text, following its line markers"""
    out = []
    name, line = None, 1
    for l in text.split("\n"):
        m = MARK.match(l)
        if m:
            name, line = m.group(2), int(m.group(1))
            continue
        if l.startswith("#pragma"):
            line += 1
            continue
        for m in TOKEN.finditer(l):
            if m.group("tok"):
                out.append((m.group("tok"), name, line))
        line += 1
    return out


PUNCT = ["+", "-", "*", "/", "%", "<", ">", "=", "==", "!=", "<=", ">=", "<<", ">>", "<<=", ">>=", "+=", "-=", "->", "&", "&&", "|", "||",
         "^", "~", "!", "?", ":", ";", ".", "...", "[", "]", "{", "}", "++", "--", "*=", "/=", "%=", "&=", "|=", "^="]
PLAIN = ["x", "y", "zed", "foo_1", "L", "_", "if", "int", "sizeof", "e", "u8", "define", "line", "defined", "include", "ifdef", "error"]
NUMS = ["0", "1", "42", "0x1f", "1.5", ".5", "1e+5", "2E-3", "10ul", "07", "1.", "3.f", "0xe", "1e", "9z"]
STRS = ['"s"', '"a\\"b"', '"\\\\"', '"it\'s"', "'c'", "'\\''", "'\"'", '"%d\\n"', 'L"w"', "L'q'", '""', "'\\\\'", '"a  b"', '"/* no */"', '"x\\\\"', "'\\n'",
        '"\\t\'"']


class Macros:
    def __init__(self, r, nmac=8, uses=12, paste=0.35, cyclic=False, comments=True, punct=0.3, multiline=0.2, empties=True):
        self.r = r
        self.nmac, self.uses, self.paste, self.cyclic, self.comments = nmac, uses, paste, cyclic, comments
        self.punct, self.multiline, self.empties = punct, multiline, empties
        self.macs = []          # (name, params or None, pasted param names)
        self.by = {}

    def ws(self, must=False):
        r = self.r.random()
        if r < 0.7:
            return " "
        if r < 0.82 and not must:
            return ""
        if r < 0.9 or not self.comments:
            return "  " if r < 0.86 else "\t"
        return self.r.choice([" /* c */ ", "/**/", " /* a, b ( */", "/* \" */ "])

    def join(self, toks):
        """text of tokens with random white space, never joining two tokens by accident"""
        out = ""
        for i, t in enumerate(toks):
            if i:
                w = self.ws()
                if w == "" and not (toks[i - 1] in ("(", ",", ")") or t in ("(", ")", ",") or (toks[i - 1][0].isalpha() and t in "([+;")):
                    w = " "
                if w == "" and toks[i - 1] == "L" and t[0] in "\"'":
                    w = " "
                out += w
            out += t
        return out

    def word(self):
        """an operand with which ## always makes a token"""
        return self.r.choice([self.r.choice(PLAIN), self.r.choice(PLAIN), self.r.choice(["0", "1", "42", "0x1f", "10ul", "07", "0xe", "9z"])])

    def args(self, name, depth, params=()):
        """argument token lists of a call of a function-like macro"""
        n, ps, pasted = self.by[name]
        out = []
        for p in ps:
            if self.empties and self.r.random() < 0.12:
                out.append([])
            elif p in pasted:
                a = [self.word()]
                if self.r.random() < 0.15:
                    a = [self.word(), self.r.choice(["+", ";", "-", "1.5", ".5", "3.f"]), self.word()]
                if self.r.random() < 0.25 and self.macs:
                    a = [self.r.choice(self.macs)[0]]
                if self.r.random() < 0.2 and params:
                    a = [self.r.choice(params)]
                out.append(a)
            else:
                out.append(self.toks(self.r.choice([1, 1, 2, 3, 5]), depth - 1, params, arg=True))
        return out

    def call(self, name, depth, params=()):
        t = [name, "("]
        for i, a in enumerate(self.args(name, depth, params)):
            if i:
                t.append(",")
            t += a
        return t + [")"]

    def toks(self, n, depth, params=(), arg=False):
        out = []
        for _ in range(n):
            k = self.r.random()
            if k < 0.22:
                out.append(self.r.choice(PLAIN))
            elif k < 0.32:
                out.append(self.r.choice(NUMS))
            elif k < 0.32 + self.punct * 0.5:
                out.append(self.r.choice(PUNCT))
            elif k < 0.32 + self.punct * 0.7:
                out.append(self.r.choice(STRS))
            elif k < 0.65 and params:
                out.append(self.r.choice(params))
            elif k < 0.9 and self.macs and depth > 0:
                m = self.r.choice(self.macs)
                if m[1] is None:
                    out.append(m[0])
                elif self.r.random() < 0.85:
                    out += self.call(m[0], depth - 1, params)
                else:
                    out += [m[0], self.r.choice([";", "+", "x", ")"]) if not arg else "+"]
                    if out[-1] == ")":
                        out[-1] = "]"
            elif k < 0.95 and depth > 0:
                out.append("(")
                out += self.toks(self.r.choice([0 if self.empties else 1, 1, 2]), depth - 1, params, arg=False)
                if arg or self.r.random() < 0.5:
                    out += [","] + self.toks(1, depth - 1, params)
                out.append(")")
            else:
                out.append(self.r.choice(PLAIN))
        return out

    def define(self):
        r = self.r
        name = "M%d" % len(self.by)
        if r.random() < 0.1:
            name = r.choice(["EMPTY", "NIL", "ALPHA_1", "_q"]) + str(len(self.by))
        if r.random() < 0.4:
            body = self.toks(r.choice([0, 1, 1, 2, 4, 7]), 2)
            if r.random() < self.paste * 0.4:
                body += [self.word(), "##", self.word()]
            if r.random() < 0.25:
                body.append(r.choice(["#", "x"]))
            if self.cyclic and r.random() < 0.5:
                body.insert(r.randrange(len(body) + 1), name)
            entry = (name, None, ())
        else:
            ps = r.sample(["a", "b", "c", "x", "long_name", "L", "define"], r.choice([0, 1, 1, 2, 2, 3, 4]))
            pasted = []
            body = []
            for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                k = r.random()
                if k < self.paste and ps:
                    n = r.choice([2, 2, 2, 3])
                    for i in range(n):
                        if i:
                            body.append("##")
                        if r.random() < 0.7:
                            p = r.choice(ps)
                            pasted.append(p)
                            body.append(p)
                        else:
                            body.append(self.word())
                elif k < self.paste + 0.15 and ps:
                    body += ["#", r.choice(ps)]
                else:
                    body += self.toks(r.choice([1, 1, 2, 4]), 2, ps)
            if self.cyclic and r.random() < 0.5:
                body += [name, "("] + [","] * max(0, len(ps) - 1) + ["x", ")"]
            entry = (name, ps, tuple(pasted))
        # a # in a function-like macro must be followed by a parameter
        if entry[1] is not None:
            body = [t for i, t in enumerate(body) if t != "#" or (i + 1 < len(body) and body[i + 1] in entry[1])]
        else:
            while body and body[0] == "##":
                body.pop(0)
        if not self.empties and (not body or entry[1]):
            body.append("z")
        if entry[1] is None:
            head = name
        else:
            head = name + "(" + self.r.choice([", ", ",", " , "]).join(entry[1]) + ")"
        sep = " " if body or r.random() < 0.5 else ""
        text = "#" + r.choice(["", "", " ", "  "]) + "define " + head + sep + self.join(body).strip()
        if r.random() < 0.1 and " " in text[9:] and '"' not in text and "'" not in text and "/*" not in text:
            i = text.index(" ", 9 + len(head))  if " " in text[9 + len(head):] else None
            if i:
                text = text[:i] + " \\\n" + text[i:]
        self.macs.append(entry)
        self.by[name] = entry
        return text

    def use(self):
        r = self.r
        t = []
        for _ in range(r.choice([1, 1, 2, 3])):
            m = r.choice(self.macs)
            k = r.random()
            if m[1] is None:
                t.append(m[0])
            elif k < 0.85:
                t += self.call(m[0], 3)
            else:
                t += [m[0], r.choice([";", "+", "]"])]
            t += self.toks(r.choice([0, 1, 2]), 2)
        s = self.join(t)
        if r.random() < self.multiline:
            # new lines in place of single spaces outside of literals
            parts = re.split(r'("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|/\*.*?\*/)', s)
            for i in range(0, len(parts), 2):
                parts[i] = re.sub(" (?!#)", lambda m: "\n" if r.random() < 0.3 else " ", parts[i])
            s = "".join(parts)
            s = re.sub(r"\n\s*#", " #", s)
        return s

    def build(self):
        out = []
        for _ in range(self.nmac):
            out.append(self.define())
            if self.r.random() < 0.1:
                m = self.r.choice(self.macs)
                if len(self.macs) > 1:
                    out.append("#undef " + m[0])
                    self.macs = [x for x in self.macs if x[0] != m[0]]
        for i in range(self.uses):
            out.append("s%d: %s" % (i, self.use()))
            if self.r.random() < 0.1:
                out.append(self.define())
        return "\n".join(out) + "\n"
