"""The differential trace oracle: the same program built by wcc and by the reference compiler must record the same events."""
import os
import re

from . import run as R


class Res:
    """verdict: ok | violation | invalid (program unusable) | inconclusive"""

    def __init__(self, verdict, sig="", detail="", files=None, stats=None, key=None, sample=None):
        self.verdict, self.sig, self.detail = verdict, sig, detail
        self.files, self.stats, self.key, self.sample = files or {}, stats or {}, key, sample


MON = re.compile(rb"(enters|leaves|calls|returns)=(\d+)")


def txt(b, n=600):
    return b.decode("utf-8", "replace")[:n]


def ref_trace(t, objs_src, name, cc="/usr/bin/gcc", opt="-O0", cflags=(), extra_objs=(), link_flags=()):
    """compile every source with a reference compiler, link, run"""
    objs = []
    for i, s in enumerate(objs_src):
        o = t.path("%s_%d.o" % (name, i))
        r = t.ref_o(s, o, cflags, cc, opt)
        if r.rc != 0:
            return None, "reference compiler: " + txt(r.err)
        objs.append(o)
    exe = t.path(name)
    r = t.link(objs + list(extra_objs), exe)
    if r.rc != 0:
        return None, "reference link: " + txt(r.err)
    return t.exe(exe), None


SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-wrapv"]


def program_valid(t, srcs, expect, san=True, refs=None, flags=()):
    """Independent opinion about a program wcc and gcc -O0 disagree on: do clang, optimising gcc and the sanitizers
    all confirm the reference trace? Otherwise the program, not wcc, is at fault."""
    for cc, opt, fl in (refs or (("/usr/bin/clang", "-O0", ("-fno-wrapv",)), ("/usr/bin/gcc", "-O2", ("-fno-wrapv",)))):
        r, why = ref_trace(t, srcs, "opinion", cc, opt, [*fl, *flags])
        if r is None:
            return False, "%s %s: %s" % (cc, opt, why)
        if r.timeout or (r.rc, r.out) != expect:
            return False, "%s %s disagrees with the reference" % (cc, opt)
    if san:
        exe = t.path("san")
        c = R.run(["/usr/bin/gcc", "-std=gnu89", "-w", "-O0", "-g", *SAN, "-fcommon", *flags, *srcs,
                   os.path.join(t.rt, "mon.o"), *t.extra, "-o", exe, "-lm"], cwd=t.d, env=R.ENV, mem=0)
        if c.rc != 0:
            return False, "sanitizer build: " + txt(c.err)
        r = R.run([exe], cwd=t.d, mem=0, env=R.clean_env(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0",
                                                        UBSAN_OPTIONS="print_stacktrace=0"))
        if r.err or r.timeout or r.rc != expect[0]:
            return False, "sanitizer: " + txt(r.err)
    return True, ""


def read(p):
    try:
        with open(p) as f:
            return f.read()
    except (OSError, UnicodeDecodeError):
        return ""


def diff_case(t, srcs, flags=(), wcc_only=None, variants=None, san=True, refs=None, cpp=(), mixes=None, ref_flags=()):
    """srcs: list of (name, text). wcc_only: indices compiled by wcc (others by gcc in both builds).
    variants: list of wcc flag lists, each of which must give the reference trace.
    mixes: list of (indices compiled by wcc, (compiler, optimisation) of the others)."""
    paths = [t.write(n, s) for n, s in srcs]
    files = {n: s for n, s in srcs}
    st = {"programs": 1}
    ref, why = ref_trace(t, paths, "ref", cflags=[*cpp, *ref_flags])
    if ref is None:
        return Res("invalid", "invalid", why, files)
    if ref.timeout:
        return Res("invalid", "invalid", "reference run timed out", files)
    if ref.rc != 0:
        return Res("invalid", "invalid", "reference run exit %d" % ref.rc, files)
    expect = (ref.rc, ref.out)
    recs = R.records(ref.out)
    st["events"] = len(recs)
    if mixes is None:
        mixes = [(range(len(paths)) if wcc_only is None else wcc_only, None)]
    for fl, (idx, partner) in [(fl, m) for m in mixes for fl in (variants or [list(flags)])]:
        bad = None
        objs = []
        for i, p in enumerate(paths):
            if i not in idx:
                o = t.path("ref_%d.o" % i)
                if partner:
                    o = t.path("partner_%d.o" % i)
                    r = t.ref_o(p, o, [*cpp, *ref_flags], partner[0], partner[1])
                    if r.rc != 0:
                        return Res("invalid", "invalid", "partner: " + txt(r.err), files, st)
                objs.append(o)
                continue
            o = t.path("w%d.o" % i)
            r = t.wcc_o(p, o, list(fl) + list(cpp))
            if r.timeout:
                r = t.wcc_o(p, o, list(fl) + list(cpp), cpu=90)
                if r.timeout:
                    bad = ("compiler-hang", "wcc did not finish within 90 s of CPU time")
                    break
            if r.rc != 0:
                what = "crashed (%d)" % r.rc if r.rc < 0 else "exit %d" % r.rc
                bad = ("compile-failure", "wcc %s on a valid program: %s" % (what, txt(r.err + r.out)))
                break
            objs.append(o)
        if not bad:
            exe = t.path("wexe")
            r = t.link(objs, exe)
            if r.rc != 0:
                bad = ("link-failure", txt(r.err))
        if not bad:
            x = t.exe(exe)
            if x.timeout:
                x = t.exe(exe, cpu=60)
            st["runs"] = st.get("runs", 0) + 1
            for m in MON.finditer(x.err):
                st[m.group(1).decode()] = st.get(m.group(1).decode(), 0) + int(m.group(2))
            if x.timeout:
                bad = ("hang", "the compiled program did not finish within 60 s of CPU time")
            elif (x.rc, x.out) != expect:
                d = R.first_diff(ref.out, x.out)
                if d:
                    i, a, b = d
                    bad = ("trace", "event %d: reference %s; wcc %s (exit %d)" % (i, R.fmt(a), R.fmt(b), x.rc))
                else:
                    bad = ("exit", "exit status %d instead of %d" % (x.rc, ref.rc))
        if bad:
            ok, why = program_valid(t, paths, expect, san, refs, ref_flags)
            files["flags.txt"] = "wcc flags: %s; units compiled by wcc: %s; others by %s" % (" ".join(fl), list(idx), partner or "gcc -O0")
            if not ok:
                return Res("invalid", "invalid:" + bad[0], "%s; but %s" % (bad[1], why), files, st)
            return Res("violation", bad[0], bad[1] + (" [flags %s]" % " ".join(fl) if fl else "") +
                       (" [wcc units %s, partner %s]" % (list(idx), partner) if len(mixes) > 1 else ""), files, st)
    return Res("ok", stats=st, key=hash_trace(ref.out), files={},
               sample="%d events, e.g. %s" % (len(recs), "; ".join(R.fmt(x) for x in recs[:3])))


def hash_trace(b):
    import hashlib
    return hashlib.sha1(b).hexdigest()[:12]


def MIXES(rng, clang=True):
    """both units by wcc, then each unit with a partner compiler for the other"""
    ps = [("/usr/bin/clang", "-O0"), ("/usr/bin/clang", "-O1")] if clang else [("/usr/bin/gcc", "-O0"), ("/usr/bin/gcc", "-O2")]
    return [((0, 1), None), ((0,), rng.choice(ps)), ((1,), rng.choice(ps))]
