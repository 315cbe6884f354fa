"""Damages source text: token, line, byte and structure mutations, and hostile constructions."""
import re

TOK = re.compile(r'[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|'
                 r'<<=|>>=|\.\.\.|->|\+\+|--|&&|\|\||[-+*/%&|^=<>!]=|<<|>>|##|\n|[ \t]+|.', re.S)

POOL = """int char short long unsigned signed float double void struct union enum typedef static extern const volatile register auto
if else while for do switch case default break continue goto return sizeof ( ) { } [ ] ; , : ? = + - * / % & | ^ ~ ! < > == != <= >=
&& || << >> += -= *= /= %= &= |= ^= <<= >>= ++ -- -> . ... # ## 0 1 -1 0x7fffffff 4294967295u 0xffffffffffffffff 1e400 .5 1.5f 2.0L 08 0xg
1.e 'a' 'ab' '' '\\x' '\\777' "s" L"w" L'w' "\\x41" x y main a b i p s t f foo va_list __builtin_va_arg __attribute__ ((packed))
#define #undef #include #if #elif #else #endif #ifdef #line #pragma #error __LINE__ __FILE__ defined /* */ // \\ @ $ ` \\
restrict inline asm __restrict _Bool __func__ offsetof NULL""".split()

HOSTILE = [
    lambda r, n: "int x = " + "(" * n + "1" + ")" * n + ";\n",
    lambda r, n: "int f(void) { return " + "-" .join(["1 "] * n) + "; }\n",
    lambda r, n: "int f(int x) { " + "{" * n + "x++;" + "}" * n + " return x; }\n",
    lambda r, n: "int " + "*" * n + "p;\n",
    lambda r, n: "int a" + "[2]" * (n % 40 + 1) + ";\n",
    lambda r, n: "int " + "a" * (n * 5) + " = 1; int f(void) { return " + "a" * (n * 5) + "; }\n",
    lambda r, n: 'char *s = "' + "x" * (n * 20) + '";\n',
    lambda r, n: 'char *s = ' + '"ab" ' * n + ';\n',
    lambda r, n: "#define M0 1\n" + "".join("#define M%d M%d M%d\n" % (i + 1, i, i) for i in range(n % 9)) +
    "int a[] = { M%d };\n" % (n % 9),
    lambda r, n: "".join("#if 1\n" for _ in range(n)) + "int x;\n" + "#endif\n" * n,
    lambda r, n: "".join("#if %d\n" % (i & 1) for i in range(n)) + "int x;\n",
    lambda r, n: "#define F(" + ",".join("a%d" % i for i in range(n)) + ") a0\nint x = F(" + ",".join("1" * 1 for i in range(n)) + ");\n",
    lambda r, n: "int f(" + ",".join("int a%d" % i for i in range(n % 60 + 1)) + ") { return a0; }\nint g(void) { return f(" +
    ",".join("%d" % i for i in range(n % 60 + 1)) + "); }\n",
    lambda r, n: "struct s { " + "".join("int m%d; " % i for i in range(n)) + "}; int f(struct s *p) { return p->m0; }\n",
    lambda r, n: "enum e { " + ",".join("E%d" % i for i in range(n)) + " }; int x = E0;\n",
    lambda r, n: "int f(int x) { switch (x) { " + "".join("case %d: x += %d; " % (i, i) for i in range(n)) + "} return x; }\n",
    lambda r, n: "int a[] = { " + ",".join("%d" % i for i in range(n * 3)) + " };\n",
    lambda r, n: "int f(int a, int b) { return " + "(a + " * (n % 70) + "b" + ")" * (n % 70) + "; }\n",
    lambda r, n: "int f(int a) { return " + "a ? 1 : " * min(n, 400) + "2; }\n",
    lambda r, n: "int f(int a) { " + "if (a) " * n + "return 1; return 0; }\n",
    lambda r, n: "int f(int a) { " + "".join("int v%d = a + %d; " % (i, i) for i in range(n)) + "return " +
    "+".join("v%d" % i for i in range(n)) + "; }\n",
    lambda r, n: "".join("int g%d; int f%d(void) { return g%d; }\n" % (i, i, i) for i in range(n)),
    lambda r, n: "struct s { " * (n % 30 + 1) + "int x; " + "".join("} m%d; " % i for i in range(n % 30 + 1))[:-2].rsplit(" ", 1)[0] + ";\n",
    lambda r, n: "int x = 1;" + " " * (n * 50) + "\\\n" * n + "\n",
    lambda r, n: "/*" + "*" * n + "\n",
    lambda r, n: "#define X(a) a\nint y = X(" + "\n" * n,
    lambda r, n: "#include \"" + "d/" * n + "h.h\"\n",
    lambda r, n: "int x = '" + "a" * (n % 12) + "';\n",
    lambda r, n: "int x = 0x" + "f" * (n % 60) + ";\n",
    lambda r, n: "double x = " + "9" * n + "." + "9" * n + "e" + "9" * (n % 20) + ";\n",
    lambda r, n: "# " + str(n) * 5 + " \"x\"\nint " + "x" * n + "\n",
]


def tokens(text):
    return TOK.findall(text)


def mutate(r, text, other):
    """a damaged version of text; other is a second source to splice from"""
    n = r.choice([1, 1, 1, 2, 3, 6])
    for _ in range(n):
        k = r.random()
        if k < 0.62:
            t = tokens(text)
            idx = [i for i, x in enumerate(t) if not x.isspace()]
            if not idx:
                continue
            i = r.choice(idx)
            m = r.randrange(9)
            if m == 0:
                del t[i]
            elif m == 1:
                t[i] = r.choice(POOL)
            elif m == 2:
                t.insert(i, " " + r.choice(POOL) + " ")
            elif m == 3:
                j = r.choice(idx)
                t[i], t[j] = t[j], t[i]
            elif m == 4:
                t[i] = t[r.choice(idx)]
            elif m == 5:
                t.insert(i, t[r.choice(idx)] + " ")
            elif m == 6:
                j = min(len(t), i + r.choice([2, 4, 8, 20]))
                del t[i:j]
            elif m == 7:
                j = min(len(t), i + r.choice([2, 4, 8, 20]))
                t[i:i] = t[i:j]
            else:
                o = tokens(other)
                a = r.randrange(len(o)) if o else 0
                t[i:i] = o[a:a + r.choice([1, 3, 8, 20])]
            text = "".join(t)
        elif k < 0.82:
            ls = text.split("\n")
            i = r.randrange(len(ls))
            m = r.randrange(5)
            if m == 0:
                del ls[i]
            elif m == 1:
                ls.insert(i, ls[r.randrange(len(ls))])
            elif m == 2:
                ls[i] = ls[i][:r.randrange(len(ls[i]) + 1)]
            elif m == 3:
                ls[i] += r.choice(["\\", "/*", "*/", "//", '"', "'", "#", "\\\\", "??/"])
            else:
                j = r.randrange(len(ls))
                ls[i], ls[j] = ls[j], ls[i]
            text = "\n".join(ls)
        elif k < 0.9:
            text = text[:r.randrange(len(text) + 1)]
        else:
            i = r.randrange(len(text) + 1)
            text = text[:i] + "".join(chr(r.choice([r.randrange(256), r.randrange(32, 127), 0, 10, 92, 255]))
                                      for _ in range(r.choice([1, 1, 2, 8]))) + text[i + r.choice([0, 1, 1, 3]):]
    return text
