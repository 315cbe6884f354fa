"""C05: sizes, alignments, offsets and bit-field placement follow the platform ABI."""
from ..frame import Check
from ..gen.agg import *
from ..oracle import diff_case


def enum_def(r, name, uid):
    n = r.randrange(1, 5)
    return "enum %s { %s };" % (name, ", ".join("%s_%d%s" % (name, i, r.choice(["", " = %d" % r.choice([-5, 0, 7, 2147483647 - 9])]))
                                               for i in range(n)))


def program(r):
    a = Agg(r, bitfields=r.choice([0, 0.3, 0.6]), packed=r.choice([0, 0.2, 0.5]), unions=r.choice([0.1, 0.3]),
            ptrs=0.1, fp=r.choice([0.1, 0.4]), anon=r.choice([0, 0.15, 0.3]), maxmem=r.choice([3, 6, 9]), depth=r.choice([1, 2, 3]))
    for _ in range(r.randrange(3, 8)):
        a.struct()
    body, fns, site = [], [], [0]

    def nxt(n=1):
        site[0] += n
        return site[0] - n
    for i, t in enumerate(a.types):
        tn = t.name
        form = r.randrange(3)
        if form == 0:
            a.defs.append("typedef %s T%d;" % (tn, i))
            tn = "T%d" % i
        lines = ["ev_u(%d, sizeof(%s));" % (nxt(), tn)]
        k = r.randrange(1, 5)
        lines.append("ev_u(%d, sizeof(%s[%d]));" % (nxt(), tn, k))
        a.defs.append("struct AL%d { char c; %s t; char d; }; struct AM%d { short s; %s t[2]; char d; };" % (i, tn, i, tn))
        a.defs.append("struct AL%d al%d; struct AM%d am%d; %s ob%d, oc%d[3];" % (i, i, i, i, tn, i, i))
        for e in ["al%d.t" % i, "al%d.d" % i]:
            lines.append("ev_i(%d, (char *) &%s - (char *) &al%d);" % (nxt(), e, i))
        for e in ["am%d.t[0]" % i, "am%d.t[1]" % i, "am%d.d" % i]:
            lines.append("ev_i(%d, (char *) &%s - (char *) &am%d);" % (nxt(), e, i))
        lines.append("ev_u(%d, sizeof(al%d)); ev_u(%d, sizeof(am%d)); ev_u(%d, sizeof(oc%d));" % (nxt(), i, nxt(), i, nxt(), i))
        lines.append("ev_i(%d, (char *) &oc%d[2] - (char *) oc%d);" % (nxt(), i, i))
        for p, ty in a.subs(t)[1:40]:
            k = r.randrange(3)
            x = "(char *) &ob%d%s - (char *) &ob%d" % (i, p, i)
            if k == 1:
                x = "(char *) &(&oc%d[1])->%s - (char *) &oc%d[1]" % (i, p[1:], i)
            if k == 2:
                x = "(long) &((%s *) 0)->%s" % (tn, p[1:])
            lines.append("ev_i(%d, %s);" % (nxt(), x))
            if r.random() < 0.3:
                lines.append("ev_u(%d, sizeof(ob%d%s));" % (nxt(), i, p))
        # the bytes a member occupies: clear, set one member, record the bytes
        ls = a.leaves(t)
        r.shuffle(ls)
        for l in [l for l in ls if not isinstance(l.ty, Ptr)][:14]:
            v = a.const(l.ty, l.bits)
            lines.append("zero(&ob%d, sizeof(ob%d)); ob%d%s = %s;" % (i, i, i, l.path, v))
            if isinstance(l.ty, Flt) and l.ty.size == 16:      # its own padding is unspecified
                lines.append("{ char *a = (char *) &ob%d, *b = (char *) &ob%d%s, *c = a + sizeof(ob%d); ev_m(%d, a, b + 10 - a); ev_m(%d, b + 16, c - b - 16); }" %
                             (i, i, l.path, i, nxt(), nxt()))
            else:
                lines.append("ev_m(%d, &ob%d, sizeof(ob%d));" % (nxt(), i, i))
            lines.append("ones(&ob%d, sizeof(ob%d)); %s" % (i, i, a.ev(nxt(), l.ty, "ob%d%s" % (i, l.path))) if not isinstance(l.ty, Flt) else "")
        fns.append("static void t%d(void) {\n    %s\n}" % (i, "\n    ".join(lines)))
        body.append("t%d();" % i)
    a.defs.append(enum_def(r, "E0", 0))
    a.defs.append("struct ES { char c; enum E0 e; short s; enum E0 f[3]; char d; } es;")
    sc = r.choice(["signed char", "short int", "unsigned", "long int", "unsigned long", "float", "double", "long double", "void *", "int (*)(void)", "char (*)[7]"])
    fns.append("static void te(void) { ev_u(%d, sizeof(enum E0)); ev_u(%d, sizeof es); ev_i(%d, (char *) &es.f[1] - (char *) &es); ev_i(%d, (char *) &es.d - (char *) &es); ev_u(%d, sizeof(%s)); }"
               % (nxt(), nxt(), nxt(), nxt(), nxt(), sc))
    body.append("te();")
    fill = "static void zero(void *p, unsigned long n) { char *c = p; while (n--) *c++ = 0; }\n" \
           "static void ones(void *p, unsigned long n) { char *c = p; while (n--) *c++ = -1; }\n"
    src = MON_H + POOL + fill + "\n".join(a.defs) + "\n" + "\n".join(fns) + "\nint main(void) { %s return 0; }\n" % " ".join(body)
    return src


DIRECTED = {
    "d:packed-bitfield": "struct S { char c; int b : 5; unsigned d : 30; short s; } __attribute__((packed));\n"
                         "int main(void) { ev_u(1, sizeof(struct S)); return 0; }\n",
    "d:aligned": "struct S { char c; long l; } __attribute__((packed)); struct T { char c; struct S s[2]; int i; };\n"
                 "int main(void) { ev_u(1, sizeof(struct T)); return 0; }\n",
}


class C05(Check):
    prop = "C05"
    rule = ("a case is one generated set of type declarations; sizes, alignments, offsets of every subobject and the "
            "bytes written through every kind of member are recorded; distinct traces count")
    assumptions = ["gcc implements the System V x86-64 ABI; a mismatch counts only if clang agrees with gcc"]

    def cases(self, tier):
        return sorted(DIRECTED) + ["p%d" % i for i in range(1000 if tier == "quick" else 10000)]

    def run(self, ctx, case, rng):
        return diff_case(ctx.tool, [("t.c", MON_H + DIRECTED[case] if case in DIRECTED else program(rng))])


CHECK = C05()
