#!/usr/bin/env python3
"""Development aid: reduces a failing single-file program. reduce.py FILE.c [wcc flags...]"""
import os, re, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from vlib import build as B, run as R, oracle as O
import threading

base = tempfile.mkdtemp(prefix="reduce", dir=B.WORK)
rt = R.build_rt(os.path.join(base, "rt"))
wd = B.build("plain")
loc = threading.local()
cnt = [0]
flags = sys.argv[2:]
real_valid = O.program_valid
O.program_valid = lambda *a: (True, "")
SPLIT = "//----SPLIT\n"
mixes = None
if os.path.isdir(sys.argv[1]):
    m = re.match(r"wcc flags: (.*); units compiled by wcc: (\[.*?\]); others by (.*)", open(sys.argv[1] + "/flags.txt").read())
    flags = m.group(1).split()
    mixes = [(eval(m.group(2)), eval(m.group(3)) if m.group(3)[0] == "(" else None)]


def parts(src):
    return [("t%d.c" % i, x) for i, x in enumerate(src.split(SPLIT))]


def tool():
    if not hasattr(loc, "t"):
        d = os.path.join(base, "t%d" % threading.get_ident())
        os.makedirs(d)
        loc.t = R.Tool(d, wd, rt)
    return loc.t


DEF = re.compile(r"^(?:(?:struct|union) (\w+) \{.*?^\};|(?!static|extern|typedef|return)[\w* ]*?(\w+)\([^{}\n]*\);)$", re.M | re.S)


def sync(src):
    """second unit's shared declarations become the first's"""
    if SPLIT not in src:
        return src
    a, b = src.split(SPLIT)
    defs = {m.group(1) or m.group(2): m.group(0) for m in DEF.finditer(a)}
    return a + SPLIT + DEF.sub(lambda m: defs.get(m.group(1) or m.group(2), m.group(0)), b)


def test(src, sig):
    t = tool()
    cnt[0] += 1
    if sig is not None:
      for _, part in parts(src):
        p = t.write("chk.c", part)
        c = R.run(["/usr/bin/gcc", "-std=gnu89", "-O2", "-Wreturn-type", "-Wuninitialized", "-Wmaybe-uninitialized", "-Werror=return-type",
                   "-Werror=uninitialized", "-Werror=maybe-uninitialized", "-Werror=implicit-function-declaration", "-S", "-o", "/dev/null", p], cwd=t.d)
        if c.rc or b"uninit" in c.err or b"control reaches" in c.err:
            return False
      if SPLIT in src:
        ps = [t.write(*x) for x in parts(src)]
        c = R.run(["/usr/bin/gcc", "-std=gnu89", "-O1", "-flto", "-Wlto-type-mismatch", *ps, rt + "/mon.o", "-lm", "-o", "chk"], cwd=t.d)
        if c.rc or b"mismatch" in c.err or b"does not match" in c.err:
            return False
    r = O.diff_case(t, parts(src), flags, mixes=mixes)
    if sig is None:
        return r
    if not (r.verdict == "violation" and r.sig == sig[0] and (sig[1] is None or sig[1] in r.detail)):
        return False
    if sig[0] in ("trace", "run", "crash") and SPLIT in src:
        ps = [t.write(*x) for x in parts(src)]
        ref = O.ref_trace(t, ps, "refv")[0]
        return ref is not None and real_valid(t, ps, (ref.rc, ref.out))[0]
    return True


def variants(lines):
    n = len(lines)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield lines[:i] + lines[i + k:]
        k //= 2


def expr_variants(src):
    # drop balanced parenthesised groups' surroundings / replace by constants
    st = []
    out = []
    for i, c in enumerate(src):
        if c in "({[":
            st.append(i)
        elif c in ")}]" and st:
            j = st.pop()
            inner = src[j + 1:i]
            if c == ")":
                out.append((i - j, src[:j] + "1" + src[i + 1:]))
                out.append((i - j, src[:j] + inner + src[i + 1:]))
                # drop callee name
                m = re.search(r"[a-z_A-Z0-9]+$", src[:j])
                if m:
                    out.append((i - j, src[:m.start()] + src[j:]))
            # keep one side of a binary operator inside
            d = 0
            for x, ch in enumerate(inner):
                if ch in "([{":
                    d += 1
                elif ch in ")]}":
                    d -= 1
                elif d == 0 and ch in "+-*/%&|^<>=?:,!":
                    out.append((len(inner) - x, src[:j + 1] + inner[:x] + src[i:]))
                    out.append((x, src[:j + 1] + inner[x + 1:].lstrip("&|<>=") + src[i:]))
            for mm in re.finditer(r", [^,()]*(?=[,)]|$)", inner):
                out.append((len(mm.group()), src[:j + 1 + mm.start()] + src[j + 1 + mm.end():]))
    for mm in re.finditer(r"\b(static|volatile|register|const|unsigned|signed|struct S\d+ \{[^}]*\};) ?", src):
        out.append((5, src[:mm.start()] + src[mm.end():]))
    for mm in re.finditer(r"= [^;{}]*;", src):
        if mm.group() != "= 0;":
            out.append((len(mm.group()), src[:mm.start()] + "= 0;" + src[mm.end():]))
            out.append((len(mm.group()), src[:mm.start()].rstrip() + ";" + src[mm.end():]))
    for mm in re.finditer(r"\w+ [a-z ]*\w+ : \d+; ", src):
        out.append((5, src[:mm.start()] + src[mm.end():]))
    out.sort(key=lambda x: -x[0])
    return [s for _, s in out]


def first(cands, sig, ex):
    """first accepted candidate, testing in parallel batches"""
    batch = []
    for c in cands:
        batch.append(sync(c))
        if len(batch) == 16:
            for c2, ok in zip(batch, ex.map(lambda s: test(s, sig), batch)):
                if ok:
                    return c2
            batch = []
    for c2, ok in zip(batch, ex.map(lambda s: test(s, sig), batch)):
        if ok:
            return c2
    return None


def main():
    if mixes:
        src = SPLIT.join(open(os.path.join(sys.argv[1], n)).read() for n in sorted(os.listdir(sys.argv[1])) if n.endswith(".c"))
    else:
        src = open(sys.argv[1]).read()
    r = test(src, None)
    print("//", r.verdict, r.sig, r.detail[:200])
    if r.verdict != "violation":
        return
    m = re.search(r"error: (.*)", r.detail)
    c = re.search(r"wcc (crashed|exit -?\d+)", r.detail)
    n = "No rules matched" if "No rules matched" in r.detail or "no rule" in r.detail.lower() else None
    sig = (r.sig, n if n else c.group(0) if c and not m else m.group(1).split("\n")[0].split(" |")[0] if m and r.sig == "compile-failure" else None)
    with ThreadPoolExecutor(8) as ex:
        while True:
            before = src
            while True:
                lines = src.split("\n")
                c = first(("\n".join(v) for v in variants(lines)), sig, ex)
                if c is None:
                    break
                src = c
                open("/tmp/best.c", "w").write(src)
            while True:
                c = first((s for s in expr_variants(src) if len(sync(s)) < len(src)), sig, ex)
                if c is None:
                    break
                src = c
                open("/tmp/best.c", "w").write(src)
            if src == before:
                break
    r = test(src, None)
    print("//", r.sig, r.detail[:300], "tests", cnt[0])
    print(re.sub(r"\n\n+", "\n", src))


try:
    main()
finally:
    shutil.rmtree(base)
