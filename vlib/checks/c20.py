"""C20: the driver, under injected failures of inputs, tools, disks and command lines."""
import os
import resource
import shutil
import signal
import subprocess
import tempfile

from .. import run as R
from ..frame import Check
from ..build import HarnessError
from ..oracle import Res

STEMS = ["a", "prog", "x.y", "sp ace", "it's", "a;b", "$x", "q\"q", "(p)", "a&b", "star*", "-dash/x", "d.d/noc", "sub/m", "sub/x.y", "sub dir/n", "v1.2/m", "back\\slash", "hash#h", "~t", "tab\tt", "e=f"]
CERR = ["int broken(void) { return undeclared_thing; }\n", "int broken(void) { return 1 }\n", "int broken(void) { 1 = 2; return 0; }\n",
        "struct nope; int broken(void) { return sizeof(struct nope); }\n", "int broken(void) { break; }\n"]
PPERR = ["#error stop here\n", "#include \"no/such/file.h\"\n", "#if 1\n", "#foo bar\n"]
ASM = """    .text
    .globl %(f)s
    .type %(f)s, @function
%(f)s:
    movl $%(v)d, %%eax
    retq
    .size %(f)s, .-%(f)s
    .section .note.GNU-stack,"",@progbits
"""


class Input:
    """one input of the driver: kind is one of c, cerr, pperr, cmissing, cdir, s, sbad, smissing, o, omissing, obad"""

    def __init__(self, kind, name, i):
        self.kind, self.name, self.i = kind, name, i
        self.fn = "fn_%d" % i
        self.mark = "sentinel_%d_end" % i


def unlimited(limit=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (30, 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN if limit else signal.SIG_DFL)
        if limit:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return f


def snapshot(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(base, n)
            r = os.path.relpath(p, d)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir",)
            else:
                with open(p, "rb") as f:
                    out[r] = ("file", f.read())
    return out


class C20(Check):
    prop = "C20"
    technique = "monitoring of exit statuses and of every file before and after under injected input, tool, disk and command line failures"
    rule = ("a case is one command line of the driver over one to four inputs (C, assembly, object files, some of them broken or missing; file names with "
            "characters special to the shell), a mode (-E, -S, -c, link, -shared), an output (default, named, standard output, full disk, missing directory, "
            "limited file size) and possibly an assembler or linker that exits with a status or dies by a signal at its n-th invocation; whether it must succeed "
            "is known by construction. The monitor compares the directory before and after, checks every output for completeness (nothing but them may change), "
            "runs linked programs, and checks that files the driver created elsewhere are gone")
    assumptions = ["the assembler and the linker do not claim success without doing their work"]

    def cases(self, tier):
        return ["d%d" % i for i in range(1500 if tier == "quick" else 9000)]

    def prepare(self, ctx):
        base = os.path.dirname(ctx.d)
        self.so = os.path.join(base, "fsrec-%d.so" % os.getpid())
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "rt", "fsrec.c")
        r = R.run(["/usr/bin/gcc", "-O1", "-w", "-shared", "-fPIC", src, "-o", self.so, "-ldl"], env=R.ENV)
        if r.rc != 0:
            raise HarnessError("fsrec.so: %s" % r.err)

    # inputs
    def text_c(self, r, x, main):
        t = "".join("/* filler */ int filler_%d_%d;\n" % (x.i, k) for k in range(20))
        t += "int %s(void) { static int s = %d; return s; }\n" % (x.fn, x.v)
        if main is not None:
            t += "".join("int %s(void);\n" % f for f in main)
            t += "int main(void) { return (%s) & 127; }\n" % (" + ".join(f + "()" for f in main) or "0")
        if x.kind == "cerr":
            t += r.choice(CERR)
        if x.kind == "pperr":
            t += r.choice(PPERR)
        return t + "int %s = %d;\n" % (x.mark, x.i)

    def make(self, r, x, d, main):
        p = os.path.join(d, x.name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if x.kind in ("c", "cerr", "pperr"):
            with open(p, "w") as f:
                f.write(self.text_c(r, x, main))
        elif x.kind == "cdir":
            os.mkdir(p)
        elif x.kind in ("s", "sbad"):
            t = ASM % {"f": x.fn, "v": x.v} + "    .data\n    .globl %s\n%s: .long 1\n" % (x.mark, x.mark)
            if x.kind == "sbad":
                t += "    thisisnotaninstruction %eax\n"
            with open(p, "w") as f:
                f.write(t)
        elif x.kind in ("o", "obad"):
            s = os.path.join(d, "tmp.s")
            with open(s, "w") as f:
                f.write(ASM % {"f": x.fn, "v": x.v} + "    .data\n    .globl %s\n%s: .long 1\n" % (x.mark, x.mark))
            c = R.run(["/usr/bin/as", "-64", s, "-o", p], env=R.ENV)
            os.unlink(s)
            if c.rc != 0:
                raise HarnessError("as: %s" % c.err)
            if x.kind == "obad":
                with open(p, "r+b") as f:
                    f.truncate(r.choice([1, 40, 100]))

    def run(self, ctx, case, rng):
        r, t = rng, ctx.tool
        d = os.path.join(t.d, "work")
        os.mkdir(d)
        mode = r.choice(["-E", "-S", "-c", "-c", "link", "link", "link", "-shared"])
        n = r.choice([1, 1, 2, 3, 4])
        stems = r.sample(STEMS, n) if r.random() < 0.6 else r.sample(STEMS[:2] + ["f%d" % i for i in range(4)], n)
        bad = r.random() < 0.45
        badone = r.randrange(n)
        xs = []
        for i in range(n):
            kind = "c"
            if mode in ("-c", "link", "-shared") and r.random() < 0.25:
                kind = "s"
            elif mode in ("link", "-shared") and r.random() < 0.25:
                kind = "o"
            if i == badone and bad and r.random() < 0.5:
                kind = r.choice(["cerr", "pperr", "cmissing", "cdir"] if mode in ("-E", "-S") else
                                ["cerr", "pperr", "cmissing", "sbad", "smissing"] if mode == "-c" else
                                ["cerr", "pperr", "cmissing", "sbad", "smissing", "omissing", "obad"])
            ext = {"c": "c", "s": "s", "o": "o"}[kind[0] if kind != "pperr" else "c"]
            x = Input(kind, "%s.%s" % (stems[i], ext), i)
            x.v = r.randrange(1, 30)
            xs.append(x)
        if mode == "-c" and bad and all(x.kind == "s" for x in xs):
            pass
        linked = mode in ("link", "-shared")
        # main is in the first C input
        holder = next((x for x in xs if x.kind in ("c", "cerr", "pperr")), None)
        twomains = nomain = undefined = False
        if mode == "link" and bad and r.random() < 0.25:
            q = r.random()
            cs = [x for x in xs if x.kind == "c"]
            if q < 0.4 and len(cs) > 1:
                twomains = True
            elif q < 0.7:
                nomain = True
            else:
                undefined = True
        if mode == "link" and holder is None:
            nomain = True
        for x in xs:
            m = None
            if (x is holder and not nomain) or (twomains and x.kind == "c"):
                m = [y.fn for y in xs] + (["nowhere_defined"] if undefined else [])
            if mode == "-shared":
                m = None
            self.make(r, x, d, m)
        why = []    # reasons to fail
        for x in xs:
            if x.kind in ("cmissing", "cdir", "pperr") or (x.kind not in ("c", "s", "o") and not (x.kind == "cerr" and mode == "-E")):
                why.append("%s is %s" % (x.name, x.kind))
        if linked and mode == "link" and (twomains or nomain or (undefined and holder)):
            why.append("two mains" if twomains else "no main" if nomain else "undefined symbol")
        # outputs: {path: (inputs whose code it holds)}
        args = [] if linked else [mode]
        if mode == "-shared":
            args += ["-shared", "-fPIC"]
        outs, stdout_of, out_arg, fault = {}, None, None, None
        flags = {}
        q = r.random()
        named = linked or n == 1
        full = False
        if named and q < 0.55:
            name = r.choice(["out", "o u t", "o'ut.x", "sub.d/out", "out;x", "$out", "out.o", "out.s", "outdir/../out"])
            os.makedirs(os.path.join(d, os.path.dirname(name)), exist_ok=True)
            os.makedirs(os.path.join(d, "outdir"), exist_ok=True)
            out_arg = name
        elif named and mode in ("-E", "-S") and q < 0.7:
            out_arg = "-"
        elif named and bad and q < 0.85:
            out_arg = r.choice(["no/such/dir/out", "outdir"] + (["full", "full"] if mode in ("-E", "-S") else []))
            os.makedirs(os.path.join(d, "outdir"), exist_ok=True)
            if out_arg == "full":
                os.symlink("/dev/full", os.path.join(d, "full"))
                full = True
            why.append("output " + out_arg)
        elif not named and bad and q < 0.1:
            out_arg = "out"
            why.append("-o with several outputs")
        joined = False
        if out_arg:
            joined = r.random() < 0.2
            oargs = ["-o" + out_arg] if joined else ["-o", out_arg]
        else:
            oargs = []
        env = {}
        fake = None
        bin_ = os.path.join(t.d, "bin")
        if bad and not why and mode in ("-c", "link", "-shared") and r.random() < 0.6:
            tool = "as" if mode == "-c" or r.random() < 0.6 else "gcc"
            calls = sum(x.kind in ("c", "s") for x in xs) if tool == "as" else 1
            nth = r.randrange(calls) + 1 if calls else 0
            how = r.choice(["exit 1", "exit 2", "exit 77", "exit 127", "exit 255", "kill -9 $$", "kill -SEGV $$", "kill -TERM $$", "kill -ABRT $$"])
            if nth:
                os.mkdir(bin_)
                with open(os.path.join(bin_, tool), "w") as f:
                    f.write("#!/bin/sh\necho x >> %s/count\nif [ $(wc -l < %s/count) -eq %d ]; then echo fake failure >&2; %s; fi\nexec /usr/bin/%s \"$@\"\n" % (
                        bin_, bin_, nth, how, tool))
                os.chmod(os.path.join(bin_, tool), 0o755)
                fake = "%s: %s at call %d" % (tool, how, nth)
                if tool == "as" and r.random() < 0.5:
                    env["AS"] = os.path.join(bin_, "as")
                else:
                    env["PATH"] = bin_ + ":" + R.ENV["PATH"]
                why.append(fake)
        limit = None
        if bad and not why and not (mode == "-E" and (not out_arg or out_arg == "-")) and not (out_arg == "-"):
            limit = r.choice([0, 1, 64, 200])
            limit = max(limit, 1)
            why.append("file size limit %d" % limit)
        sink = False
        if bad and not why and (out_arg == "-" or (mode == "-E" and not out_arg)):
            sink = True
            why.append("standard output is full")
        cli = None
        if bad and not why:
            cli = r.choice([["--no-such-flag"], ["-Q"], ["-"], ["-fnope"]])
            why.append("flag %s" % cli[0])
        # what the outputs are
        ext = {"-S": "s", "-c": "o"}.get(mode)
        if linked:
            outs[os.path.normpath(out_arg or "a.out")] = list(xs)
        elif mode == "-E":
            if out_arg and out_arg != "-":
                outs[os.path.normpath(out_arg)] = list(xs)
            else:
                stdout_of = list(xs)
        else:
            if out_arg == "-":
                stdout_of = list(xs)
            else:
                for x in xs:
                    o = os.path.normpath(out_arg) if out_arg else x.name[:-1] + ext
                    outs.setdefault(o, []).append(x)
        if len(outs) != len(xs) and not linked and outs and not out_arg:
            return Res("invalid", "invalid", "colliding outputs")
        if any(o == x.name for o in outs for x in xs):
            return Res("invalid", "invalid", "output is an input")
        # stale outputs of earlier runs
        stale = b"stale output of an earlier run\n"
        for o in outs:
            p = os.path.join(d, o)
            if r.random() < 0.3 and not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
                with open(p, "wb") as f:
                    f.write(stale)
        # the command line
        parts = [oargs, args] + [[y] for y in (cli or [])]
        if r.random() < 0.4:
            parts.append(["-v"] if mode != "-E" and out_arg != "-" else ["-g"])
        if r.random() < 0.3:
            parts.append(r.choice([["-O2"], ["-I", "."], ["-DX=1"], ["-D", "Y"], ["-L."], ["-g"]]))
        r.shuffle(parts)
        k = r.randrange(len(parts) + 1)
        names = [("./" + x.name if x.name[0] in "-~" and r.random() < 2 else x.name) for x in xs]
        cmd = [t.wcc] + [a for q in parts[:k] for a in q] + names + [a for q in parts[k:] for a in q]
        rd, wr = os.pipe()      # a file would be subject to the file size limit
        os.set_blocking(wr, False)
        before = snapshot(d)
        e = dict(R.ENV, **env, LD_PRELOAD=self.so, FSREC_FD=str(wr))
        so = open("/dev/full", "wb") if sink else subprocess.PIPE
        p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=so, stderr=subprocess.PIPE, env=e, restore_signals=False,
                             start_new_session=True, preexec_fn=unlimited(limit), pass_fds=(wr,))
        os.close(wr)
        try:
            out, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            os.close(rd)
            return Res("inconclusive", "timeout", "timeout")
        out = out or b""
        after = snapshot(d)
        st = {"runs": 1, "must-succeed" if not why else "must-fail": 1, "mode " + mode: 1}
        if why:
            st["failure: " + (fake.split(" at")[0] if fake else why[0].split(" is ")[-1] if " is " in why[0] else why[0].split(" limit")[0])] = 1
        shown = " ".join("'%s'" % c for c in ["wcc"] + cmd[1:])
        info = "%s; expected %s; exit %d; stderr: %s" % (shown, "failure because " + ", ".join(why) if why else "success", p.returncode,
                                                        err.decode("utf-8", "replace")[:300])
        files = {"command.txt": "%s\nenv %s limit %s\n%s" % (shown, env, limit, info)}

        def bad_(sig, msg):
            for q, v in before.items():
                if v[0] == "file":
                    files.setdefault("in_" + q.replace("/", "__"), v[1])
            return Res("violation", sig, msg + "; " + info, files, st)

        temps = []
        os.set_blocking(rd, False)      # a fake tool's survivors may hold the other end
        with open(rd, "rb") as f:
            for line in (f.read() or b"").decode("utf-8", "replace").splitlines():
                who, what, path = line.rstrip("\n").split(" ", 2)
                if who != "wcc":
                    continue
                path = os.path.normpath(os.path.join(d, path))
                if what == "temp":
                    temps.append(path)
        st["temporary files"] = len(temps)
        left = [q for q in temps if os.path.exists(q)]
        for q in left:
            os.unlink(q)
        if p.returncode < 0:
            return bad_("signal", "the driver died by signal %d" % -p.returncode)
        if why and p.returncode == 0:
            return bad_("false-success", "exit status 0")
        if not why and p.returncode != 0:
            return bad_("false-failure", "exit status %d" % p.returncode)
        if why and not (err.strip() or out.strip() or sink):
            return bad_("silent-failure", "no message")
        if why and sink and not err.strip():
            return bad_("silent-failure", "no message")
        if left:
            return bad_("temporary-file", "left %s behind" % ", ".join(left))
        # changed files
        for q in sorted(set(before) | set(after)):
            if before.get(q) == after.get(q):
                continue
            if q not in outs:
                return bad_("unrelated-file", "%s was %s" % (q, "removed" if q not in after else "created" if q not in before else "changed"))
            if why and q not in after:
                continue
            if q not in after:
                return bad_("output-removed", "output %s is gone" % q)
            m = self.complete(ctx, mode, os.path.join(d, q), after[q], outs[q], linked, why)
            st["outputs checked"] = st.get("outputs checked", 0) + 1
            if m:
                return bad_("incomplete-output", "output %s: %s" % (q, m))
        if not why:
            for q in outs:
                if q not in after:
                    return bad_("missing-output", "output %s is missing" % q)
                if before.get(q) == after.get(q):
                    return bad_("stale-output", "output %s was not written" % q)
            if stdout_of is not None:
                pos = -1
                for x in stdout_of:
                    a = out.find(x.mark.encode(), pos + 1)
                    if a < 0:
                        return bad_("incomplete-output", "the standard output lacks %s or its order is wrong" % x.name)
                    pos = a
        return Res("ok", stats=st, key="%s/%d/%s/%s" % (mode, n, ",".join(x.kind for x in xs), why[0][:12] if why else out_arg), sample=info[:300])

    def complete(self, ctx, mode, path, entry, xs, linked, failing):
        if entry[0] != "file":
            return "not a file"
        data = entry[1]
        if failing and any(x.kind not in ("c", "s", "o") and not (mode == "-E" and x.kind == "cerr") for x in xs):
            return "written although its input is unusable"
        if failing and linked:
            return "written by a failed link"
        for x in xs:
            if x.mark.encode() not in data and x.kind != "o":
                return "lacks %s" % x.mark
        if mode == "-E":
            return None if data.rstrip().endswith(b";") else "truncated"
        if mode == "-S":
            r = R.run(["/usr/bin/as", "-64", path, "-o", path + ".chk"], env=R.ENV)
            if os.path.exists(path + ".chk"):
                os.unlink(path + ".chk")
            return None if r.rc == 0 else "not valid assembly"
        if mode == "-c":
            r = R.run(["/usr/bin/nm", path], env=R.ENV)
            return None if r.rc == 0 and all((" " + x.fn).encode() in r.out for x in xs) else "not a complete object"
        if mode == "-shared":
            r = R.run(["/usr/bin/nm", "-D", path], env=R.ENV)
            return None if r.rc == 0 and all((" " + x.fn).encode() in r.out for x in xs) else "not a complete library"
        r = R.run([path], env=R.ENV)
        want = sum(x.v for x in xs) & 127
        return None if r.rc == want else "the program exits with %d instead of %d" % (r.rc, want)

    def finish(self, stats, tier):
        if stats["must-succeed"] < 50 or stats["must-fail"] < 50 or stats["temporary files"] < 50 or stats["outputs checked"] < 50:
            raise HarnessError("too few successes, failures, outputs or temporary files seen")
        return {}


CHECK = C20()
