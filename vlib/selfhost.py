"""wcc compiled by itself: stage 2 (by the wcc gcc built) and stage 3 (by stage 2), cached like the other builds."""
import fcntl
import os
import shutil
import subprocess

from . import build as B


def build():
    """(directory with wcc2 and wcc3's assembly, None) or (None, what failed). The plain build must exist."""
    plain = B.build("plain")
    key = B.tree_hash()
    d = os.path.join(B.WORK, "self-" + key)
    lock = open(os.path.join(B.WORK, "lock-self"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(d, ".ok")):
            return d, None
        for other in os.listdir(B.WORK):
            if other.startswith("self-"):
                shutil.rmtree(os.path.join(B.WORK, other), ignore_errors=True)
        shutil.copytree(plain, d, symlinks=True)
        env = {"PATH": B.gcc_wrapper_dir() + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/root"}
        # the compiler finds its headers through BUILD_DIR, which both stages must share with the first
        for target in ("wcc2", "wcc3"):
            try:
                p = subprocess.run(["make", "--eval=.DELETE_ON_ERROR:", "-j8", "GCC_OPTS=", "BUILD_DIR=\"%s\"" % plain, target], cwd=d, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=400)
            except subprocess.TimeoutExpired:
                return None, "%s: the build did not finish" % target
            if p.returncode != 0 or not os.path.exists(os.path.join(d, target)):
                return None, "%s: %s" % (target, p.stdout.decode("utf-8", "replace")[-1500:])
        open(os.path.join(d, ".ok"), "w").close()
        return d, None
    finally:
        lock.close()
