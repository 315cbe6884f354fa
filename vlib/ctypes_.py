"""C types for the generators."""
import itertools


class Ty:
    pass


class Int(Ty):
    def __init__(self, name, size, signed, rank):
        self.name, self.size, self.signed, self.rank = name, size, signed, rank
        b = size * 8
        self.lo = -(1 << (b - 1)) if signed else 0
        self.hi = (1 << (b - 1)) - 1 if signed else (1 << b) - 1
        self.bits = b

    def wrap(self, v):
        v &= (1 << self.bits) - 1
        if self.signed and v > self.hi:
            v -= 1 << self.bits
        return v

    def __repr__(self):
        return self.name


CHAR = Int("char", 1, True, 1)
UCHAR = Int("unsigned char", 1, False, 1)
SHORT = Int("short", 2, True, 2)
USHORT = Int("unsigned short", 2, False, 2)
INT = Int("int", 4, True, 3)
UINT = Int("unsigned int", 4, False, 3)
LONG = Int("long", 8, True, 4)
ULONG = Int("unsigned long", 8, False, 4)
INTS = [CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG]

SPELL = {
    "char": ["char", "signed char", "char signed"],
    "unsigned char": ["unsigned char", "char unsigned"],
    "short": ["short", "short int", "signed short", "signed short int"],
    "unsigned short": ["unsigned short", "unsigned short int", "short unsigned", "short unsigned int"],
    "int": ["int", "signed", "signed int"],
    "unsigned int": ["unsigned int", "unsigned"],
    "long": ["long", "long int", "signed long", "signed long int"],
    "unsigned long": ["unsigned long", "unsigned long int", "long unsigned int"],
}


class Flt(Ty):
    def __init__(self, name, size, rank):
        self.name, self.size, self.rank = name, size, rank

    def __repr__(self):
        return self.name


FLOAT = Flt("float", 4, 11)
DOUBLE = Flt("double", 8, 12)
LDOUBLE = Flt("long double", 16, 13)
FLTS = [FLOAT, DOUBLE, LDOUBLE]


class Void(Ty):
    name = "void"
    size = 1


VOID = Void()


class Ptr(Ty):
    size = 8

    def __init__(self, to, qual=""):
        self.to, self.qual = to, qual


class Arr(Ty):
    def __init__(self, of, n):
        self.of, self.n = of, n


class Func(Ty):
    def __init__(self, ret, params, variadic=False):
        self.ret, self.params, self.variadic = ret, params, variadic


class Enum(Ty):
    size = 4

    def __init__(self, tag, members):
        self.tag, self.members = tag, members
        self.name = "enum " + tag


class Member:
    def __init__(self, name, ty, bits=None):
        self.name, self.ty, self.bits = name, ty, bits


class SU(Ty):
    """struct or union"""

    def __init__(self, tag, members, union=False, packed=False):
        self.tag, self.members, self.union, self.packed = tag, members, union, packed

    @property
    def name(self):
        return ("union " if self.union else "struct ") + self.tag


def decl(ty, name=""):
    """C declarator text for a type and a name."""
    if isinstance(ty, Ptr):
        inner = "*" + ((ty.qual + " ") if ty.qual else "") + name
        if isinstance(ty.to, (Arr, Func)):
            inner = "(" + inner + ")"
        return decl(ty.to, inner)
    if isinstance(ty, Arr):
        return decl(ty.of, "%s[%s]" % (name, "" if ty.n is None else ty.n))
    if isinstance(ty, Func):
        ps = ", ".join(decl(p) for p in ty.params) or "void"
        if ty.variadic:
            ps += ", ..."
        return decl(ty.ret, "%s(%s)" % (name, ps))
    base = ty.name
    return (base + " " + name) if name else base


def su_def(su):
    ms = []
    for m in su.members:
        if m.bits is not None:
            ms.append("    %s : %d;" % (decl(m.ty, m.name or ""), m.bits))
        elif m.name is None:  # anonymous
            ms.append("    %s {\n%s\n    };" % ("union" if m.ty.union else "struct",
                                               "\n".join("    " + l for l in su_members(m.ty))))
        else:
            ms.append("    %s;" % decl(m.ty, m.name))
    return "%s {\n%s\n}%s;" % (su.name, "\n".join(ms), " __attribute__((packed))" if su.packed else "")


def su_members(su):
    return su_def(SU("x", su.members)).split("\n")[1:-1]
