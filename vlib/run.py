"""Compiles, links and runs monitored programs; the differential oracle."""
import os
import resource
import shutil
import signal
import struct
import subprocess

from . import build as B

CPU_RUN = 20
NULL = subprocess.DEVNULL


def _limits(cpu, mem=4 << 30):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


class R:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, cwd=None, cpu=CPU_RUN, wall=None, env=None, mem=4 << 30, stdin=NULL):
    p = subprocess.Popen(cmd, cwd=cwd, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, start_new_session=True, preexec_fn=_limits(cpu, mem))
    try:
        out, err = p.communicate(timeout=wall or cpu * 6)
        return R(p.returncode, out, err, p.returncode == -signal.SIGXCPU)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return R(-9, out, err, True)


_crt = None


def crt():
    global _crt
    if _crt is None:
        def find(n):
            return subprocess.check_output(["/usr/bin/gcc", "-print-file-name=" + n]).decode().strip()
        _crt = ([find("crt1.o"), find("crti.o"), find("crtbegin.o")],
                [find("crtend.o"), find("crtn.o")],
                os.path.dirname(find("libgcc.a")), os.path.dirname(find("libc.so")))
    return _crt


def clean_env(**kw):
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/root"}
    e.update(kw)
    return e


ENV = clean_env()


class Tool:
    """One worker's toolbox: private scratch directory, wcc build directory, runtime objects."""

    def __init__(self, scratch, wccdir, rtdir):
        self.d, self.w, self.rt = scratch, wccdir, rtdir
        self.wcc = os.path.join(wccdir, "wcc")
        self.post_asm = None        # text -> text, applied to wcc's assembly
        self.extra = []             # runtime objects linked into every program

    def path(self, name):
        return os.path.join(self.d, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def wcc_s(self, src, out, flags=(), cpu=30, env=None):
        return run([self.wcc, *flags, "-S", src, "-o", out], cwd=self.d, cpu=cpu, env=env or ENV)

    def wcc_o(self, src, out, flags=(), cpu=30):
        s = out + ".s"
        r = self.wcc_s(src, s, flags, cpu)
        if r.rc != 0:
            return r
        if self.post_asm:
            with open(s) as f:
                a = self.post_asm(f.read())
            with open(s, "w") as f:
                f.write(a)
        r2 = run(["/usr/bin/as", "-64", s, "-o", out], cwd=self.d)
        if r2.rc != 0:
            return R(1000 + abs(r2.rc), r2.out, b"assembler rejected wcc's output: " + r2.err)
        return r

    def ref_o(self, src, out, flags=(), cc="/usr/bin/gcc", opt="-O0"):
        return run([cc, "-std=gnu89", "-w", opt, "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off",
                    "-fcommon", "-fno-stack-protector", *flags, "-c", src, "-o", out],
                   cwd=self.d, env=ENV, mem=8 << 30)

    def link(self, objs, out, mon="mon.o", extra=()):
        pre, post, gccdir, libdir = crt()
        return run(["/usr/bin/ld", "-dynamic-linker", "/lib64/ld-linux-x86-64.so.2", "-z", "noexecstack",
                    "--no-warnings",
                    "-o", out, *pre, *objs, os.path.join(self.rt, mon), *self.extra, *extra,
                    "-L" + gccdir, "-L" + libdir, "-lc", "-lm", "-lgcc", *post], cwd=self.d, env=ENV)

    def link_as(self, kind, objs, out, extra=()):
        """like link, but as pie or shared; extra come after the objects"""
        if kind == "exe":
            return self.link(objs, out, extra=extra)
        pre, post, gccdir, libdir = crt()
        if kind == "shared":
            pre = post = []
        swap = {"crt1.o": "Scrt1.o", "crtbegin.o": "crtbeginS.o", "crtend.o": "crtendS.o"}
        pre, post = [[os.path.join(os.path.dirname(x), swap.get(os.path.basename(x), os.path.basename(x))) for x in v] for v in (pre, post)]
        mon = [os.path.join(self.rt, "mon.o"), *self.extra] if kind == "pie" else []
        return run(["/usr/bin/ld", *(["-shared"] if kind == "shared" else ["-pie", "-dynamic-linker", "/lib64/ld-linux-x86-64.so.2"]), "-z", "noexecstack",
                    "--no-warnings", "-o", out, *pre, *objs, *mon, *extra, "-L" + gccdir, "-L" + libdir, "-lc", "-lm", "-lgcc", *post], cwd=self.d, env=ENV)

    def exe(self, path, cpu=CPU_RUN, env=None, args=()):
        return run([path, *args], cwd=self.d, cpu=cpu, env=env or ENV)


def build_rt(d):
    os.makedirs(d, exist_ok=True)
    src = os.path.join(B.VERIF, "rt")
    for n in sorted(os.listdir(src)):
        if n.endswith(".c"):
            subprocess.check_call(["/usr/bin/gcc", "-O1", "-w", "-fPIC", "-c", os.path.join(src, n), "-o",
                                   os.path.join(d, n[:-2] + ".o")])
        elif n.endswith(".S"):
            subprocess.check_call(["/usr/bin/gcc", "-c", os.path.join(src, n), "-o",
                                   os.path.join(d, n[:-2] + ".o")])
    return d


REC = struct.Struct("<ii24s")


def records(out):
    n = len(out) // 32
    return [REC.unpack_from(out, 32 * i) for i in range(n)]


def fmt(rec):
    if rec is None:
        return "end of trace"
    site, kind, d = rec
    if kind in (1, 8):
        v = "%d" % struct.unpack_from("<q", d)[0]
    elif kind == 2:
        v = "%uU" % struct.unpack_from("<Q", d)[0]
    elif kind == 3:
        v = "NaN" if d[:3] == b"NaN" else "%r f" % struct.unpack_from("<f", d)[0]
    elif kind == 4:
        v = "NaN" if d[:3] == b"NaN" else "%r d" % struct.unpack_from("<d", d)[0]
    elif kind == 5:
        v = "NaN" if d[:3] == b"NaN" else "ld:" + d[:10][::-1].hex()
    elif kind == 6:
        v = "mem len=%d head=%s hash=%s" % (struct.unpack_from("<Q", d)[0], d[16:].hex(), d[8:16].hex())
    elif kind == 7:
        v = "reached"
    elif kind == 9:
        from .instrument import CODES
        return "machine state: %s (%x, expected %x)" % ((CODES.get(site, site),) + struct.unpack_from("<QQ", d))
    else:
        v = "k%d %s" % (kind, d.hex())
    return "site %d: %s" % (site, v)


def first_diff(a, b):
    ra, rb = records(a), records(b)
    for i in range(max(len(ra), len(rb))):
        x = ra[i] if i < len(ra) else None
        y = rb[i] if i < len(rb) else None
        if x != y:
            return i, x, y
    return None
