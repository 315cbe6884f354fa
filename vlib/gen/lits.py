"""Programs made of literal spellings, unusual token boundaries, comments and line continuations."""
from .prog import MON_H


def esc_c(r):
    k = r.random()
    if k < 0.3:
        return "\\" + r.choice("abfnrtv\\'\"?")
    if k < 0.5:
        return "\\" + r.choice(["", "", "1", "2", "3"]) + "".join(r.choice("01234567") for _ in range(r.choice([1, 2]))) if r.random() < 0.5 else "\\" + r.choice(["0", "7", "12", "377", "200", "177", "00", "000", "1"])
    if k < 0.7:
        return "\\x" + r.choice(["0", "7f", "80", "ff", "FF", "a", "A", "41", "00", "aB", "9"])
    return None


class Lits:
    def __init__(self, r, n=40, trigraphs=False, splice=0.0, comments=0.2):
        self.r, self.n, self.trigraphs, self.splice, self.comments = r, n, trigraphs, splice, comments
        self.site = 0
        self.glob, self.body = [], []

    def s(self):
        self.site += 1
        return self.site

    # integers
    def integer(self):
        r = self.r
        edges = [0, 1, 7, 8, 9, 10, 63, 64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32,
                 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
        v = r.choice(edges) if r.random() < 0.5 else r.getrandbits(r.choice([3, 8, 16, 31, 32, 33, 48, 63, 64]))
        k = r.random()
        suf = r.choice(["", "", "", "u", "U", "l", "L", "ul", "UL", "lu", "LU", "uL", "Ul", "lU", "Lu"])
        if k < 0.4:
            if v >= 2 ** 63 and "u" not in suf.lower():
                suf += "u"
            t = str(v)
        elif k < 0.75:
            t = r.choice(["0x", "0X"]) + "".join(r.choice([c, c.upper()]) for c in r.choice(["", "", "0", "000"]) + "%x" % v)
        else:
            t = "0" + r.choice(["", "", "0", "00"]) + ("%o" % v)
        return t + suf

    def floating(self):
        r = self.r
        dig = lambda n: "".join(r.choice("0123456789") for _ in range(n))
        k = r.random()
        if k < 0.25:
            m = dig(r.choice([1, 2, 5, 17, 25])) + "." + dig(r.choice([0, 1, 3, 17, 30]))
        elif k < 0.4:
            m = "." + dig(r.choice([1, 3, 12, 20]))
        elif k < 0.5:
            m = r.choice(["0.0", "0.", ".0", "1.", "00.5", "010.0", "0.1", "1.0", "3.14159", "16777217.0", "9007199254740993.0", "0.30000000000000004",
                          "2.2250738585072011e-308", "4.9e-324", "1.7976931348623157e308", "1.17549435e-38", "3.40282347e38", "1e22", "1e23", "8.5e-46",
                          "9007199254740992.999999999", "1.00000005960464477539062500001", "1.000000059604644775390625", "123456789012345678901234567890."])
        else:
            m = dig(r.choice([1, 2, 9])) + r.choice(["", ".", "." + dig(4)]) + r.choice("eE") + r.choice(["", "+", "-"]) + str(r.choice([0, 1, 2, 5, 10, 20, 30, r.randrange(38)]))
        if not any(c in m for c in ".eE"):
            m += "."
        suf = r.choice(["", "", "f", "F", "l", "L"])
        return m + suf, suf.lower()

    def char(self):
        r = self.r
        e = esc_c(r)
        if e is None:
            e = r.choice("abcxyzABC0189 !#$%&()*+,-./:;<=>?@[]^_`{|}~\"")
            if self.trigraphs and e == "?":
                e = "\\?"
        return ("L" if r.random() < 0.1 and not e.startswith("\\x") and not e.startswith("\\") else "") + "'%s'" % e

    def string(self, wide=False, maxlen=12):
        r = self.r
        out = ""
        for _ in range(r.choice([0, 1, 2, 5, maxlen])):
            e = esc_c(r)
            if e is None:
                e = r.choice("abcdefABCDEF0123456789 /*'#%\\?,;(){}~")
                if e == "\\":
                    e = "\\\\"
            if e[0] == "\\" and e[1:2] in tuple("4567") and len(e) < 4:
                e += "g"  # another digit would be out of range
            if wide and e.startswith("\\x"):
                e = "\\x41"
            # a hexadecimal escape swallows following digits, which is out of range: end the literal there
            if out and out.rsplit("\\x", 1)[-1] != out and e[0] in "0123456789abcdefABCDEF" and all(c in "0123456789abcdefABCDEF" for c in out.rsplit("\\x", 1)[-1]):
                e = "g" + e
            out += e
        if self.trigraphs:
            for _ in range(r.choice([0, 1, 2])):
                out += r.choice(["??=", "??(", "??)", "??<", "??>", "??!", "??'", "??-", "???", "????", "?\\?=", "??", "? ?=", "??x", "???=", "??/n", "??/""??/", "??/\"", "q"])
            if out.endswith("?"):
                out += "z"
        elif not self.trigraphs and r.random() < 0.1:
            out += r.choice(["??=z", "??/z", "??(z"])
        return ("L" if wide else "") + '"%s"' % out

    def gap(self):
        r = self.r
        return r.choice([" ", " ", "\n", "", " /* x */ ", "\t", "\n\n\n", "/* \" */", " // y \"\n", "\\\n", "\f", " \v ", "/**/", "/***/", "/* * / */"])

    def strings(self, wide=False):
        out = self.string(wide)
        for _ in range(self.r.choice([0, 0, 0, 1, 2, 4])):
            out += self.gap() + self.string(wide)
        return out

    def oneint(self):
        t = self.integer()
        s = self.s()
        return "ev_u(%d, (unsigned long) %s); ev_i(%d, sizeof(%s)); ev_i(%d, (%s) * 0 - 1 < 0);" % (s, t, s, t, s, t)

    def munch(self):
        r = self.r
        e = r.choice([
            "a+++b", "a---b", "a- - -b", "a+ + +b", "a+-b", "a-+b", "a<<b", "a<-b", "a>-b", "a>=-b", "a<=~b", "a&&!b", "a||!b", "a&~b", "a|-b", "a^~b", "a?-b:+c",
            "a==-b", "a!=!b", "a%-c", "*p+++*p", "a/ *q", "a/(*q)", "!*p", "-(-a)", "- -a", "~-a", "~~a", "!!a", "(a,b)", "t[1]", "t[a&1]", "sp->f", "st.f", "-sp->f", "x+=-b",
            "x-=-b", "x=-b", "x<<=2", "x>>=1", "x*=-2", "x/=c", "x%=c", "x&=~b", "x^=-1", "x|=b", "a>b==c", "a<b<c", "a>>1>b", "a<<1<b", "a>=b>=c", "a&b&&c", "a&&b&c", "a|b||c",
            "a?b?1:2:3", "a?b:c?d:1", "-a*-b", "a*-b", "a* *q", "a**q", "a&*q", "a&&*q", "x=*q", "x=a=b", "x==a==b", "a-->0", "0<--a", "a--<0", "++a+b", "b+ ++a", "a++ + ++b",
            "a++-b--", "a-- - --b", "sizeof a", "sizeof(a)+1", "sizeof-a", "sizeof+a", "sizeof!a", "sizeof*q", "sizeof t/sizeof*t", "(int)-a", "(char)a+b", "-(char)a", "~(short)a", "!(long)a",
            "*&a", "&t[2]-&t[0]", "a.0" if False else "a", "1.5+.5>a", "1.-.5>a", ".5e+1>a", "5e-1<a", "0xe-1" if False else "0xf-1", "0x1F+a", "1-1", "1--a" if False else "1- -a", "'a'+'b'",
            "\"ab\"[1]", "1[\"xy\"]", "*\"q\"", "sizeof\"abc\"", "sizeof L\"abc\"", "t[a&1]++", "++t[0]", "-t[0]--", "sp->f++", "++sp->f", "&*sp==sp", "&*p==p", "!a==!b", "Lx+L1+e5+x1e", "intx-returned-if_"])
        return "ev_i(%d, (%s)); ev_i(%d, a); ev_i(%d, b); ev_i(%d, x); p = t; t[0] = 5; st.f = 3; a = %d; b = %d; c = %d; x = 100;" % (
            self.s(), e, self.site, self.site, self.site, r.randrange(-5, 9), r.randrange(1, 9), r.choice([1, 2, 3, 7]))

    def comment(self):
        r = self.r
        return r.choice(["/**/", "/***/", "/* // */", "// /* \n", "/*/*/", "/* * / **/", "/* \" */", "// ' \" \n", "/*\n\n*/", "// x \\\n still */ comment\n", "/* \\\n */", "/*\"*/", "//\n", "/*'*/"])

    def stmt(self):
        r = self.r
        k = r.random()
        s = self.s()
        if k < 0.25:
            return self.oneint()
        if k < 0.4:
            t, suf = self.floating()
            f = {"": "ev_d", "f": "ev_f", "l": "ev_ld"}[suf]
            if r.random() < 0.3:
                # converted, and as a constant in an initializer
                self.glob.append("%s g%d = %s;" % (r.choice(["double", "long double", "float"]), s, t))
                return "ev_ld(%d, g%d); %s(%d, %s);" % (s, s, f, s, t)
            return "%s(%d, %s); ev_i(%d, sizeof(%s));" % (f, s, t, s, t)
        if k < 0.5:
            t = self.char()
            if r.random() < 0.3:
                self.glob.append("char c%d = %s; int i%d[] = {%s, %s};" % (s, t, s, t, self.char()))
                return "ev_i(%d, c%d); ev_m(%d, i%d, sizeof(i%d));" % (s, s, s, s, s)
            return "ev_i(%d, %s); ev_i(%d, sizeof(%s));" % (s, t, s, t)
        if k < 0.72:
            wide = r.random() < 0.2
            t = self.strings(wide)
            q = r.random()
            ty = "int" if wide else r.choice(["char", "char", "unsigned char"])
            if q < 0.25:
                self.glob.append("%s s%d[] = %s;" % (ty, s, t))
                return "ev_m(%d, s%d, sizeof(s%d));" % (s, s, s)
            if q < 0.4:
                return "{ %s l[] = %s; ev_m(%d, l, sizeof(l)); }" % (ty, t, s)
            if q < 0.5:
                self.glob.append("%s *s%d = %s;" % (ty, s, t) if ty != "unsigned char" else "unsigned char *s%d = (unsigned char *) %s;" % (s, t))
                return "ev_m(%d, s%d, sizeof(%s));" % (s, s, t)
            return "ev_m(%d, %s, sizeof(%s));" % (s, t, t)
        if k < 0.92:
            return self.munch()
        n = r.choice(["intx", "returned", "iffy", "whileloop", "_", "__x", "L", "Lq", "u8", "sizeofx", "x" * r.choice([31, 32, 63, 64, 200, 1000]), "e1", "E", "do_", "defined", "define", "include", "line", "error"])
        m = n + r.choice(["1", "a", "_"])
        return "{ int %s = %d, %s = %d; ev_i(%d, %s*10+%s); %s++; ev_i(%d, %s); }" % (n, r.randrange(9), m, r.randrange(9), s, n, m, n, s, n)

    def do_splice(self, text):
        """insert line continuations between any two characters"""
        out = []
        for i, c in enumerate(text):
            out.append(c)
            if self.r.random() < self.splice and c != "\\" and text[i + 1:i + 2] not in ("\n",) and c != "?" and text[i + 1:i + 2] != "?":
                out.append("\\\n")
        return "".join(out)

    def build(self):
        r = self.r
        for _ in range(self.n):
            t = self.stmt()
            if r.random() < self.comments:
                t = self.comment() + t if r.random() < 0.5 else t + self.comment()
            self.body.append(t)
        pre = [MON_H, "struct st { int f; } st = {3}, *sp = &st;", "int a = 3, b = 4, c = 2, d = 1, x = 100, t[4] = {5, 6, 7, 8}, *p = t, *q = t + 1;",
               "int Lx = 1, L1 = 2, e5 = 3, x1e = 4, intx = 50, returned = 7, if_ = 1;"]
        funcs = []
        for i in range(0, len(self.body), 12):
            funcs.append("void f%d(void) {\n%s\n}" % (i, "\n".join(self.body[i:i + 12])))
        funcs.append("int main(void) { %s return 0; }" % " ".join("f%d();" % i for i in range(0, len(self.body), 12)))
        text = "\n".join(self.glob + funcs) + "\n"
        if self.splice:
            text = self.do_splice(text)
        if self.trigraphs:
            # punctuation outside of literals by trigraphs
            text = "".join({"[": "??(", "]": "??)", "{": "??<", "}": "??>", "~": "??-", "|": "??!", "^": "??'"}[c] if c in "[]{}~|^" and r.random() < 0.3 and text[max(0, i - 1)] != "?" and text[max(0, i - 1)] != "'" and text[i + 1:i + 2] != "'" else c
                           for i, c in enumerate(text))
        return "\n".join(pre) + "\n" + text
