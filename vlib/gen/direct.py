"""Trees of source files with conditionals, includes and line numbering; every kept line is a C declaration."""


class Directives:
    """files: {relative name: text}; self.main is the file to preprocess, self.flags the -I flags.
    Markers are declarations `int mkN...` on a line or `int mmN...` on several; the rest is whatever has to be skipped or expanded."""

    def __init__(self, r, lines=60, nfiles=4, with_line=True, garbage=True):
        self.r = r
        self.lines, self.nfiles, self.with_line, self.garbage = lines, nfiles, with_line, garbage
        self.n = 0
        self.nodef = False
        self.files = {}
        self.macros = {}          # name -> text of value (object like, integer)
        self.guard = 0
        self.pending = []         # files to write

    # controlling expressions
    def num(self):
        r = self.r
        v = r.choice([0, 1, 2, 3, 7, 8, 31, 32, 63, 127, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff,
                      r.getrandbits(8), r.getrandbits(31), r.getrandbits(40)])
        k = r.random()
        s = hex(v) if k < 0.2 else ("0%o" % v if k < 0.3 else ("0X%X" % v if k < 0.35 else str(v)))
        return s + r.choice(["", "", "", "", "L", "l", "U", "u", "UL", "ul", "LU"])

    def atom(self, d):
        r = self.r
        k = r.random()
        if k < 0.45:
            return self.num()
        if k < 0.55:
            return r.choice(["'a'", "'0'", "'\\n'", "'\\0'", "'\\x41'", "'\\101'", "' '", "'\\''", "'\"'", "'#'", "'\\377'", "L'z'"])
        if k < 0.7 and self.macros:
            return r.choice(sorted(self.macros))
        if k < 0.75:
            return r.choice(["UNDEF_A", "undef_b", "int", "sizeof", "line", "include", "if", "else", "error"])
        if k < 0.8:
            if d <= 0:
                return "4"
            a, b = self.plain(d - 1), self.plain(d - 1)
            return r.choice(["FUN1(%s)" % a, "FUN2(%s,%s)" % (a, b)])
        if k < 0.97 and not self.nodef:
            n = r.choice(sorted(self.macros) + ["UNDEF_A", "NOT_THERE", "FUN1", "FUN3", "line", "ifdef", "__LINE__", "__FILE__", "__STDC__"])
            return r.choice(["defined %s", "defined(%s)", "defined ( %s )", "!defined(%s)", "! defined %s"]) % n
        return "__LINE__"

    def plain(self, d):
        """an expression without defined, which a macro may not yield"""
        old, self.nodef = self.nodef, True
        e = self.expr(d)
        self.nodef = old
        return e

    def expr(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.atom(d)
        k = r.random()
        a = self.expr(d - 1)
        if k < 0.12:
            return "%s%s" % (r.choice(["-", "~", "!", "+", "- ", "!!", "-~"]), a if a[0] not in "+-" else "(" + a + ")")
        if k < 0.3:
            return "(%s)" % a
        b = self.expr(d - 1)
        if k < 0.36:
            return "((%s) << ((%s) & 63))" % (a, b)
        if k < 0.42:
            return "((%s) >> ((%s) & 63))" % (a, b)
        if k < 0.5:
            c = self.expr(d - 1)
            if r.random() < 0.4:
                return "1 ? %s : %s / 0" % (a, b) if r.random() < 0.5 else "0 ? 1 / 0 : %s" % a
            return "%s ? %s : %s" % (a, b, c)
        if k < 0.56:
            return r.choice(["0 && 1 / 0 || %s", "1 || 5 %% 0 && %s", "(%s || 1) && 3", "%s && 0 || 1"]) % a
        if k < 0.62:
            return "(%s) %s ((%s) | 1 & 255)" % (a, r.choice("/%"), b) if False else "(%s) %s %d" % (a, r.choice("/%"), r.choice([1, 2, 3, 7, 10, 4096, 0x7fffffff]))
        op = r.choice(["+", "-", "*", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||", "<", ">", "=="])
        return "%s%s%s%s%s" % (a, r.choice(["", " "]) if a[-1] not in "+-&|" else " ", op, " ", b)

    # lines
    def marker(self):
        r = self.r
        self.n += 1
        k = r.random()
        if k < 0.5:
            return ["int mk%d;" % self.n]
        if k < 0.65:
            return ["int mk%d = __LINE__;" % self.n]
        if k < 0.72:
            return ["char *mk%d = __FILE__;" % self.n]
        if k < 0.8:
            return ["int mm%d = 1 \\" % self.n] + (["  + 2;"] if r.random() < 0.5 else ["  + \\", "  3;"])
        if k < 0.86:
            return ["int /* a", "  comment " + "\n" * r.choice([0, 0, 3, 12]) + " */ mm%d;" % self.n]
        if k < 0.92:
            return ["int mm%d = FUN2(1," % self.n] + [""] * r.choice([0, 0, 2, 9]) + ["  %d);" % r.randrange(99)]
        if k < 0.96:
            return ["int", "mm%d" % self.n, "=", "3", ";"]
        return ["char *mm%d = \"a\" " % self.n] + [""] * r.choice([0, 1, 10]) + ["  \"# b\";"]

    def junk(self):
        """lines that may only appear in a skipped group"""
        r = self.r
        return r.choice([["this isn't C"], ["#bogus directive"], ["# 12 nonsense"], ["it's # define"], ["x # else"], ["\"unterminated"], ["#error not reached"],
                         ["#include \"missing.h\""], ["#include <no/such/file>"], ["#define"], ["#undef 5"], ["/* #endif", "#else */"], ["a ## b #endif"],
                         ["#line foo"], ["#if 1 /", "#else", "#endif"], ["#ifdef", "#elif (", "#else", "#endif"], ["#if defined", "oops", "#endif"], ["\\"],
                         ["foo \\", "#endif"], ["# 7 \"other.c\""], ["'", "'"], ["int x = '#';", "#"], ["#warning w"], ["#ifndef a b", "#else junk", "#endif junk"],
                         ["@ $ `"], ["#define M0 99999", "#undef M1"], ["// #endif it's"]])

    def directive(self, depth, name):
        r = self.r
        sp = r.choice(["#", "#", "#", "# ", "  #", "\t# ", "/* c */ # "])
        k = r.random()
        if k < 0.45 and depth > 0:
            return self.conditional(depth - 1, name, sp)
        if k < 0.62:
            m = "M%d" % r.randrange(12)
            out = ["%sundef %s" % (sp, m)] if (m in self.macros or r.random() < 0.3) else []
            if r.random() < 0.75 or not out:
                v = r.choice([self.num(), "(%s)" % self.plain(1), self.num() + " /* c */", "-3", "M%d" % r.randrange(12), "7", ""]) if r.random() < 0.9 else "FUN1(2)"
                if v == "" or v.startswith("M"):
                    v = "5"
                if m in self.macros and not out:
                    out = ["%sundef %s" % (sp, m)]
                out.append("%sdefine %s %s" % (sp, m, v))
                self.macros[m] = v
            return out
        if k < 0.75:
            return [self.include(name)]
        if k < 0.86 and self.with_line:
            n = r.choice([1, 7, 100, 5000, r.randrange(1, 30000)])
            if r.random() < 0.3:
                return ["%s%d \"marked%d.c\"%s" % (r.choice(["# ", "# ", "#  "]), n, n, r.choice(["", "", " 1", " 2", " 3 4"][:2]))]
            return [r.choice(["%sline %d", "%sline %d \"renamed%d.c\"" % ("%s", n, n), "%sline %d \"" + "dir/x.h\"", "%sline LN%d"]) .replace("%sline %d", "%sline " + str(n)).replace("LN%d", "LINENO")
                    % sp]
        if k < 0.9:
            return [sp]
        if k < 0.95:
            return ["#pragma once_upon_a_time # 'x"]
        return ["#ifdef UNDEF_A"] + self.junk() + ["#endif"]

    def group(self, depth, name, n):
        out = []
        for _ in range(n):
            out += self.marker() if self.r.random() < 0.6 else self.directive(depth, name)
            while self.r.random() < 0.15:
                out += [""] * self.r.choice([1, 1, 2, 9, 20])
        return out

    def conditional(self, depth, name, sp):
        r = self.r
        size = lambda: r.choice([0, 1, 1, 2, 3])
        n = r.choice(sorted(self.macros) + ["UNDEF_A", "FUN1", "__FILE__", "line"])
        k = r.random()
        tail = lambda: r.choice(["", "", " /* c */", " "])
        always = None
        if k < 0.2:
            out = ["%sifdef %s%s" % (sp, n, tail())]
        elif k < 0.4:
            out = ["%sifndef %s%s" % (sp, n, tail())]
        else:
            always = r.choice([None, None, "0", "1"])
            e = always or self.expr(r.choice([0, 1, 2, 3, 4]))
            if always and r.random() < 0.3:
                e = "(%s)" % e
            out = ["%sif %s%s" % (sp, e.replace(" ", " \\\n ", 1) if r.random() < 0.08 else e, tail())]
        saved = dict(self.macros)
        skip_junk = always == "0" and self.garbage
        out += (self.junk() + self.group(depth, name, size()) + self.junk()) if skip_junk else self.group(depth, name, size())
        self.macros = dict(saved)
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append("%selif %s%s" % (sp, self.expr(r.choice([0, 1, 2, 3])) if always != "1" or r.random() < 0.5 or not self.garbage else "( bad /", tail()))
            out += self.group(depth, name, size())
            self.macros = dict(saved)
        if r.random() < 0.6:
            out.append("%selse%s" % (sp, tail()))
            out += (self.junk() if always == "1" and self.garbage else []) + self.group(depth, name, size())
            self.macros = dict(saved)
        out.append("%sendif%s" % (sp, tail()))
        # conditional definitions aren't known any more: make them known
        return out

    def include(self, name):
        r = self.r
        here = name.rsplit("/", 1)[0] + "/" if "/" in name else ""
        if len(self.files) + len(self.pending) < self.nfiles and r.random() < 0.8:
            new = len(self.files) + len(self.pending) + 1
            kind = r.random()
            if kind < 0.3:
                path, spell = here + "f%d.h" % new, '"f%d.h"' % new
            elif kind < 0.5:
                path, spell = here + "sub%d/f%d.h" % (new, new), '"sub%d/f%d.h"' % (new, new)
            elif kind < 0.7:
                path, spell = "inc1/f%d.h" % new, r.choice(['"f%d.h"', "<f%d.h>"]) % new
            elif kind < 0.85:
                # the same name exists in the second directory with something else
                path, spell = "inc1/dup%d.h" % new, r.choice(['"dup%d.h"', "<dup%d.h>"]) % new
                self.files["inc2/dup%d.h" % new] = "int wrong_directory%d;\n" % new
            else:
                path, spell = "inc2/d/f%d.h" % new, r.choice(["<d/f%d.h>", '"d/f%d.h"']) % new
            self.files[path] = ""
            self.files[path] = self.text(path, r.choice([2, 5, 10]), 2)
            out = "#include %s" % spell
            if r.random() < 0.25:
                m = "INC%d" % new
                out = "#define %s %s\n#include %s%s" % (m, spell, m, r.choice(["", " /* c */"]))
            return out
        return "#include %s" % r.choice(['"rep.h"', "<rep.h>", "REP"])

    def text(self, name, n, depth):
        out = self.group(depth, name, n)
        if self.r.random() < 0.2:
            g = "GUARD_%d" % len(self.files)
            out = ["#ifndef " + g, "#define " + g] + out + ["#endif"]
        return "\n".join(out) + self.r.choice(["\n", "\n", "\n\n\n", ""])

    def build(self):
        r = self.r
        self.flags = ["-Iinc1", "-I", "inc2"] if r.random() < 0.5 else ["-I", "inc1", "-Iinc2"]
        self.files["inc1/rep.h"] = "int rep_a;\n#ifdef UNDEF_A\nint bad;\n#endif\nextern int rep_b;\n"
        self.macros["M0"] = "0"
        self.macros["M1"] = "1"
        head = ["#define M0 0", "#define M1 1", "#define FUN1(x) ((x) + 1)", "#define FUN2(a, b) (a - b)", "#define FUN3() 3", "#define REP <rep.h>",
                "#define LINENO 77", "#define __one 1"]
        self.main = r.choice(["t.c", "t.c", "dir/t.c"])
        self.files[self.main] = ""
        self.files[self.main] = "\n".join(head) + "\n" + self.text(self.main, self.lines, 4)
        return self
