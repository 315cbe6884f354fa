"""Every size and position of a bit-field in its storage unit, read and written in several ways (C06)."""
from .prog import MON_H


def bit_program(r, size, signed):
    o = [MON_H]
    mains = []
    site = 0
    fs = []
    ty = "int" if signed else "unsigned"
    for off in range(0, 33 - size):
        rest = 32 - off - size
        pre = r.choice(["", "", "char lead; int lead2; ", "long lead; ", "unsigned lead : 32; "])
        post = r.choice(["", "", " char tail;", " unsigned tail : 7;", " long tail;"])
        mem = pre + ("unsigned pad : %d; " % off if off else "") + "%s f : %d;" % (ty, size) + (" unsigned rest : %d;" % rest if rest else "") + post
        o.append("struct B%d { %s };" % (off, mem))
        o.append("static struct B%d g%d;" % (off, off))
        top = (1 << size) - 1
        vals = [0, 1, top, 1 << (size - 1), top >> 1] + [r.getrandbits(size) for _ in range(2)]
        if signed:
            vals = [v - (1 << size) if v >> (size - 1) else v for v in vals]
        L = ["static void fill%d(struct B%d *p, int v) { unsigned char *c = (unsigned char *) p; int i; for (i = 0; i < sizeof(*p); i++) c[i] = v; }" % (off, off),
             "static void t%d(struct B%d *p, %s v) {" % (off, off, ty), "    struct B%d a, b;" % off]

        def ev(fmt, *a):
            nonlocal site
            L.append("    " + fmt.replace("@", str(site)) % a)
            site += 1
        F = "ev_i" if signed else "ev_u"
        for k, (fill) in enumerate(r.sample([0, 255, 0x55, 0xaa, r.getrandbits(8)], 2)):
            acc, init = r.choice([("p->f", "fill%d(p, %d);" % (off, fill)), ("a.f", "fill%d(&a, %d);" % (off, fill)),
                                  ("g%d.f" % off, "fill%d(&g%d, %d);" % (off, off, fill))])
            obj = {"p": "p", "a": "&a", "g": "&g%d" % off}[acc[0]]
            L.append("    " + init)
            ev(F + "(@, %s);", acc)
            ev("ev_i(@, %s ? 1 : 2);", acc)
            ev("ev_i(@, %s < v);" if signed else "ev_i(@, %s == v);", acc)
            ev(F + "(@, (%s = v));", acc)
            ev("ev_m(@, %s, sizeof(struct B%d));", obj, off)
            ev(F + "(@, %s);", acc)
            for op in r.sample(["^= v", "&= 1", "|= v", ">>= 1", "= !%s" % acc, "= -%s" % acc if not signed or size > 1 else "= 0", "= ~%s" % acc], 3):
                ev(F + "(@, (%s %s));", acc, op)
                ev("ev_m(@, %s, sizeof(struct B%d));", obj, off)
            # increments that don't overflow
            L.append("    %s = 0;" % acc)
            if size > 2:
                for t in r.sample(["%s++", "++%s", "%s += 1"], 2):
                    ev(F + "(@, " + t + ");", acc)
            else:
                L.append("    %s = 1;" % acc)
            L.append("    b = *(%s);" % obj)
            ev(F + "(@, b.f);")
            ev("ev_m(@, %s, sizeof(struct B%d));", obj, off)
        L.append("}")
        o += L
        for v in vals:
            mains.append("    t%d(&g%d, %d%s);" % (off, off, v, "" if signed else "u") if v != -2 ** 31 else "    t%d(&g%d, -2147483647 - 1);" % (off, off))
    o.append("int main(void) {\n" + "\n".join(mains) + "\n    return 0;\n}\n")
    return "\n".join(o)
