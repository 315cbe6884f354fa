"""Builds variants of wcc from /repo's current working tree, outside /repo.

Each variant is built with the project's own Makefile in a private copy of the
non-ignored files, cached by a hash of their content.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WCC_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")

VARIANTS = {
    # name: (GCC_OPTS, cc)
    "plain": "-O1",
    "asan": "-O1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=alignment -fsanitize-recover=undefined",
    "mon": "-O1 -DWCC_MONITOR",
}


class HarnessError(Exception):
    pass


def repo_files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z"],
                         stdout=subprocess.PIPE, check=True).stdout
    names = sorted(n for n in out.decode().split("\0") if n)
    keep = []
    for n in names:
        if n.startswith("tests/"):
            continue
        p = os.path.join(REPO, n)
        if os.path.isfile(p):
            keep.append(n)
    return keep


def tree_hash(names=None):
    names = names or repo_files()
    h = hashlib.sha256()
    for n in names:
        h.update(n.encode() + b"\0")
        with open(os.path.join(REPO, n), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def gcc_wrapper_dir():
    d = os.path.join(WORK, "bin")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "gcc")
    if not os.path.exists(p):
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write('#!/bin/sh\nexec /usr/bin/gcc -fcommon "$@"\n')
        os.chmod(tmp, 0o755)
        os.rename(tmp, p)
    return d


def build(variant="plain"):
    """Returns the directory holding wcc, libwcc.a and include/ of this variant."""
    names = repo_files()
    key = tree_hash(names)
    os.makedirs(WORK, exist_ok=True)
    d = os.path.join(WORK, "build-%s-%s" % (variant, key))
    lock = open(os.path.join(WORK, "lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(d, ".ok")):
            return d
        # keep at most one build per variant
        for other in os.listdir(WORK):
            if other.startswith("build-%s-" % variant):
                shutil.rmtree(os.path.join(WORK, other), ignore_errors=True)
        os.makedirs(d)
        for n in names:
            dst = os.path.join(d, n)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, n), dst)
        env = {k: v for k, v in os.environ.items()
               if k not in ("MAKEFLAGS", "MFLAGS", "GCC_OPTS", "WCC_OPTS", "AS", "PRINT_IR")}
        env["PATH"] = gcc_wrapper_dir() + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        env["LC_ALL"] = "C"
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        p = subprocess.run(["make", "--eval=.DELETE_ON_ERROR:", "-j8",
                            "GCC_OPTS=" + VARIANTS[variant], "wcc"],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
        if p.returncode != 0 or not os.path.exists(os.path.join(d, "wcc")):
            sys.stderr.write(p.stdout.decode("utf-8", "replace")[-4000:])
            raise HarnessError("build of variant %s failed" % variant)
        open(os.path.join(d, ".ok"), "w").close()
        return d
    finally:
        lock.close()
