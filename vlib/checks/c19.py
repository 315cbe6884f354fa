"""C19: the same source must give the same output, however, wherever and by whichever build of the compiler it is compiled."""
import hashlib
import os
import re
import shutil

from .. import build as B
from .. import run as R
from .. import selfhost
from ..frame import Check
from ..gen import damage
from ..gen.lits import Lits
from ..gen.macros import Macros
from ..oracle import Res, txt
from .c17 import corpus, generated

FLAGS = ["-fno-live-range-coalescing", "-fspill-furthest-liveness-end", "-fno-dont-spill-short-live-ranges",
         "-fno-optimize-arithmetic", "-fno-vreg-renumbering", "-fPIC", "-g"]


# declarations that mean something else if anything of another source is left over
TAIL = """
#ifdef LEAK
int leaked;
#endif
#ifndef KEEP
typedef %(t)s leaktype; struct leaktag { leaktype a[%(n)d]; }; enum { leakenum = %(n)d };
static leaktype leakstatic = %(n)d; %(x)s leakfunction(%(t)s a) { static int n = %(n)d; struct leaktag s; n += leakstatic + leakenum; if (!a) goto l; s.a[0] = a; n += s.a[0]; l: return n; }
#endif
#define LEAK %(n)d
"""


def tail(rng):
    return TAIL % {"t": rng.choice(["int", "char", "unsigned long", "double", "short"]), "n": rng.randrange(1, 50), "x": rng.choice(["int", "static int", "long", "double"])}


def first(a, b):
    x, y = a.split(b"\n"), b.split(b"\n")
    for i in range(max(len(x), len(y))):
        p, q = x[i:i + 1], y[i:i + 1]
        if p != q:
            return "line %d: %s instead of %s" % (i + 1, txt(q[0], 120) if q else "nothing", txt(p[0], 120) if p else "nothing")
    return "equal"


class C19(Check):
    prop = "C19"
    technique = "comparison of the outputs of perturbed compilations and of the self-compiled compiler"
    rule = ("a case is one source (generated, from the corpus, damaged, or a source file of the compiler) with a set of flags; its assembly or preprocessed "
            "text, diagnostics and exit status must not change under: address space randomisation off, freed and fresh memory filled with a pattern, a large or "
            "different environment, another directory, another position among several inputs, the sanitized build of the compiler, and the compiler compiled by "
            "itself; the third stage of the compiler must be made of the same assembly as the second")
    assumptions = ["gcc compiles the first stage correctly"]
    variants = ["plain", "asan"]
    max_invalid = 0.05

    def cases(self, tier):
        B.build("plain")
        self.self_dir, self.self_error = selfhost.build()
        n = 1 if tier == "quick" else 10
        own = sorted(f for f in B.repo_files() if re.fullmatch(r"[a-z-]+\.c", f) and f not in ("instrgen.c", "make-internals.c"))
        return ["stages"] + ["own-" + f for f in own] + ["g%d" % i for i in range(600 * n)] + ["e%d" % i for i in range(150 * n)] + ["m%d" % i for i in range(400 * n)]

    def stages(self):
        if self.self_error:
            return Res("violation", "self-compilation", self.self_error, {"log.txt": self.self_error})
        st = {"assembly files compared": 0}
        a, b = os.path.join(self.self_dir, "build/wcc2"), os.path.join(self.self_dir, "build/wcc3")
        for n in sorted(os.listdir(a)):
            if n.endswith(".s"):
                with open(os.path.join(a, n), "rb") as f, open(os.path.join(b, n), "rb") as g:
                    x, y = f.read(), g.read()
                st["assembly files compared"] += 1
                if x != y:
                    return Res("violation", "stage3", "%s compiled by stage 2 differs: %s" % (n, first(x, y)), {"2.s": x, "3.s": y}, st)
        return Res("ok", stats=st, key="stages", sample="%d files of stages 2 and 3 equal" % st["assembly files compared"])

    def once(self, t, wcc, mode, flags, d, name, before=(), after=(), env=None, pre=(), fill=None):
        """compile d/name, perhaps among others; the outcome as the user sees it"""
        others = [*before, *after]
        e = dict(R.ENV, **(env or {}))
        ext = ".i" if mode == "-E" else ".s"
        out = os.path.join(d, name[:-2] + ext)
        if os.path.exists(out):
            os.unlink(out)
        o = [] if others else ["-o", name[:-2] + ext]
        r = R.run([*pre, wcc, *flags, mode, *before, name, *after, *o], cwd=d, env=e, cpu=60, mem=0)
        if r.timeout:
            return None
        data = b""
        if os.path.exists(out):
            with open(out, "rb") as f:
                data = f.read()
        return r.rc, data, r.out + r.err

    def run(self, ctx, case, rng):
        t = ctx.tool
        if case == "stages":
            return self.stages()
        mode = "-S"
        flags = rng.sample(FLAGS, rng.choice([0, 0, 1, 2]))
        d = os.path.join(t.d, "one")
        os.mkdir(d)
        if case.startswith("own-"):
            for n in os.listdir(ctx.builds["plain"]):
                if n.endswith((".c", ".h")):
                    shutil.copyfile(os.path.join(ctx.builds["plain"], n), os.path.join(d, n))
            if not os.path.exists(os.path.join(d, case[4:])):
                return Res("invalid", "invalid", "no such source")
            os.rename(os.path.join(d, case[4:]), os.path.join(d, "t.c"))
            with open(os.path.join(d, "t.c")) as f:
                src = f.read()
            flags += ["-D", 'BUILD_DIR="/nowhere"']
        else:
            if case[0] == "e":
                mode = "-E"
                src = Macros(rng).build() if rng.random() < 0.5 else Lits(rng, n=30, comments=0.4, splice=0.02).build()
            elif case[0] == "m":
                src = damage.mutate(rng, corpus(rng) if rng.random() < 0.3 else generated(rng), generated(rng))
            else:
                k = rng.random()
                src = generated(rng) if k < 0.75 else corpus(rng) if k < 0.85 else Lits(rng, n=30).build()
            if case[0] == "g":
                src += tail(rng)
            with open(os.path.join(d, "t.c"), "w", encoding="latin1", newline="") as f:
                f.write(src)
        files = {"t.c": src.encode("latin1", "replace"), "flags.txt": "%s %s" % (mode, flags)}
        st = {"compilations": 1, "mode " + mode: 1}
        base = self.once(t, t.wcc, mode, flags, d, "t.c")
        if base is None:
            return Res("inconclusive", "timeout", "timeout")
        if base[0] < 0:
            return Res("invalid", "invalid", "the compiler crashed")
        st["accepted" if base[0] == 0 else "rejected"] = 1
        todo = ["aslr", "perturb", "perturb2", "env", "dir", "asan"]
        if self.self_dir:
            todo += ["self", "self"]
        if base[0] == 0:
            todo += ["after", "before"]
        todo = sorted(set(rng.sample(todo, 4) + (["self"] if self.self_dir else [])))
        for what in todo:
            kw = {"wcc": t.wcc, "d": d, "env": {}}
            strip = None
            fl = flags
            if what == "aslr":
                kw["pre"] = ["/usr/bin/setarch", "-R"]
            elif what in ("perturb", "perturb2"):
                kw["env"]["MALLOC_PERTURB_"] = str(rng.choice([1, 85, 129, 165, 255]))
                if what == "perturb2":
                    kw["env"]["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096"
            elif what == "env":
                kw["env"] = {"X" * rng.randrange(1, 50): "y" * rng.randrange(1, 30000), "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "TERM": "xterm",
                             "HOME": "/nonexistent", "TZ": "Asia/Tokyo", "COLUMNS": "20", "POSIXLY_CORRECT": "1"}
            elif what == "dir":
                if "-g" in flags:
                    continue
                d2 = os.path.join(t.d, "another directory")
                shutil.rmtree(d2, ignore_errors=True)
                shutil.copytree(d, d2)
                kw["d"] = d2
            elif what == "asan":
                kw["wcc"] = os.path.join(ctx.builds["asan"], "wcc")
                kw["env"] = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0", "UBSAN_OPTIONS": "print_stacktrace=0"}
            elif what == "self":
                kw["wcc"] = os.path.join(self.self_dir, "wcc2")
            else:
                if mode == "-E":
                    continue
                names = []
                for i in range(rng.choice([1, 2])):
                    n = "other%d.c" % i
                    with open(os.path.join(d, n), "w", encoding="latin1") as f:
                        f.write(generated(rng) if rng.random() < 0.6 else Lits(rng, n=20).build())
                        f.write(tail(rng))
                    names.append(n)
                kw["before" if what == "after" else "after"] = names
                # the others alone first: they have to be accepted
                if any(self.once(t, t.wcc, mode, flags, d, n)[0] != 0 for n in names):
                    continue
            wcc, dd = kw.pop("wcc"), kw.pop("d")
            got = self.once(t, wcc, mode, fl, dd, "t.c", **kw)
            st["compilations"] += 1
            st["compared " + what] = st.get("compared " + what, 0) + 1
            if got is None:
                return Res("inconclusive", "timeout", "timeout of " + what)
            if what == "asan":
                # the builds name their own include directories
                got = tuple(x.replace(ctx.builds["asan"].encode(), ctx.builds["plain"].encode()) if isinstance(x, bytes) else x for x in got)
            if what == "asan" and (b"runtime error" in got[2] or b"AddressSanitizer" in got[2]):
                continue        # C17's business
            # diagnostics do not matter as long as other files are compiled too
            cmp = slice(0, 2) if what in ("before", "after") else slice(0, 3)
            if got[cmp] != base[cmp]:
                msg = ("exit status %d instead of %d: %s" % (got[0], base[0], txt(got[2], 300)) if got[0] != base[0] else
                       "output " + first(base[1], got[1]) if got[1] != base[1] else "diagnostics " + first(base[2], got[2]))
                files["base.out"], files["other.out"] = base[1], got[1]
                return Res("violation", "differs: " + what, msg + " (flags %s %s)" % (mode, flags), files, st)
        return Res("ok", stats=st, key=hashlib.sha1(base[1] + base[2]).hexdigest()[:12],
                   sample="%d bytes of %s, exit %d, same under %s" % (len(base[1]), mode, base[0], ", ".join(todo)))

    def finish(self, stats, tier):
        for w in ("aslr", "perturb", "env", "dir", "asan", "self", "after", "before"):
            if stats["compared " + w] < 20 and not (w == "self" and self.self_error):
                raise B.HarnessError("too few comparisons: " + w)
        return {}


CHECK = C19()
