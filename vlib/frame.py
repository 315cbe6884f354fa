"""Runs a property's cases on all cores, reports, writes evidence."""
import collections
import json
import multiprocessing
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

from . import build as B
from . import run as R
from .oracle import Res

KNOWN = os.path.join(B.VERIF, "known-findings.json")
EVID = os.path.join(B.VERIF, "evidence")

_ctx = {}


class Check:
    """Base of a property's check. Subclasses define:
    prop, rule, assumptions, variants (wcc builds needed), cases(tier) -> list of case descriptors,
    run(ctx, case, rng) -> Res, and optionally directed() -> list of (name, callable-less case descriptor)."""
    prop = None
    level = "exploration"
    technique = "differential execution trace monitoring"
    level_note = ("random sampling of programs with an independent oracle over recorded executions: nothing is proved, "
                  "the evidence counts what was observed")
    rule = ""
    assumptions = []
    variants = ["plain"]
    max_invalid = 0.05       # more discarded programs than this means the generator is broken

    def cases(self, tier):
        raise NotImplementedError

    def run(self, ctx, case, rng):
        raise NotImplementedError

    def prepare(self, ctx):
        pass

    def finish(self, stats, tier):
        """extra coverage fields; may raise HarnessError when a monitor saw too little"""
        return {}


class Ctx:
    def __init__(self, d, builds, rt, tier, seed):
        self.d, self.builds, self.rt, self.tier, self.seed = d, builds, rt, tier, seed
        self.tool = R.Tool(d, builds.get("plain") or next(iter(builds.values())), rt)

    def tool_for(self, variant):
        return R.Tool(self.d, self.builds[variant], self.rt)


def _init(check, builds, rt, tier, seed, base):
    d = tempfile.mkdtemp(prefix="w", dir=base)
    _ctx["check"], _ctx["ctx"] = check, Ctx(d, builds, rt, tier, seed)
    _ctx["problem"] = None
    try:
        check.prepare(_ctx["ctx"])
    except Exception:
        _ctx["problem"] = traceback.format_exc()


def _one(arg):
    i, case = arg
    check, ctx = _ctx["check"], _ctx["ctx"]
    rng = random.Random("%s/%s/%s" % (ctx.seed, check.prop, case))
    for n in os.listdir(ctx.d):
        p = os.path.join(ctx.d, n)
        if os.path.isfile(p) or os.path.islink(p):
            os.unlink(p)
        else:
            shutil.rmtree(p, ignore_errors=True)
    t0 = time.time()
    if _ctx["problem"]:
        return i, case, Res("error", "harness", _ctx["problem"])
    try:
        res = check.run(ctx, case, rng)
    except Exception:
        res = Res("error", "harness", traceback.format_exc())
    res.wall = time.time() - t0
    return i, case, res


def known_findings():
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            return json.load(f)
    return {"findings": [], "fixed": []}


def save_replay(prop, name, res):
    d = os.path.join(EVID, "replay", prop, str(name).replace("/", "_").replace(" ", "_")[:80])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, s in res.files.items():
        with open(os.path.join(d, os.path.basename(n)), "wb") as f:
            f.write(s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape"))
    with open(os.path.join(d, "REPORT.txt"), "w") as f:
        f.write("%s\n%s\n" % (res.sig, res.detail))
    return d


def main(check, tier, seed, jobs=8, limit=None, only=None):
    t0 = time.time()
    if os.path.isdir(os.path.join(EVID, "replay", check.prop)):
        shutil.rmtree(os.path.join(EVID, "replay", check.prop))
    builds = {v: B.build(v) for v in check.variants}
    base = tempfile.mkdtemp(prefix="run-%s-" % check.prop, dir=B.WORK)
    try:
        return _main(check, tier, seed, jobs, limit, only, builds, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(check, tier, seed, jobs, limit, only, builds, base, t0):
    rt = R.build_rt(os.path.join(base, "rt"))
    cases = check.cases(tier)
    if only is not None:
        cases = [c for c in cases if str(c) == only] or [only]
    if limit:
        cases = cases[:limit]
    stats = collections.Counter()
    keys = set()
    samples, viol, known, errors, invalid, inconcl = [], [], [], [], [], []
    kf = {(k["case"], k["signature"]): k for k in known_findings()["findings"] if k["property"] == check.prop}
    with multiprocessing.Pool(jobs, _init, (check, builds, rt, tier, seed, base)) as pool:
        for i, case, res in pool.imap_unordered(_one, list(enumerate(cases)), chunksize=1):
            stats["cases"] += 1
            for k, v in res.stats.items():
                stats[k] += v
            if res.verdict == "ok":
                stats["ok"] += 1
                if res.key is not None:
                    keys.add(res.key)
                if res.sample and (len(samples) < 6 or i < 6):
                    samples.append((i, "case %s: %s" % (case, res.sample)))
            elif res.verdict == "violation":
                k = kf.get((str(case), res.sig))
                if k:
                    known.append((case, res, k))
                else:
                    viol.append((i, case, res))
            elif res.verdict == "invalid":
                invalid.append((case, res))
            elif res.verdict == "inconclusive":
                inconcl.append((case, res))
            else:
                errors.append((case, res))
    for case, res, k in known:
        print("KNOWN-FINDING: property=%s %s" % (check.prop, k["what"]))
    viol.sort(key=lambda x: x[0])
    vout = []
    for i, case, res in viol:
        d = save_replay(check.prop, case, res)
        vout.append({"case": str(case), "signature": res.sig, "detail": res.detail[:500], "replay": d})
    for v in vout[:20]:
        print("VIOLATION property=%s replay=%s" % (check.prop, v["replay"]))
        print("  case %s: %s: %s" % (v["case"], v["signature"], v["detail"][:300].replace("\n", " | ")))
    if len(vout) > 20:
        print("  ... and %d more" % (len(vout) - 20))
    rc = 1 if vout else 0
    for case, res in (invalid + inconcl)[:3]:
        print("note: case %s %s: %s" % (case, res.verdict, res.detail[:300].replace("\n", " | ")))
    problem = None
    if errors:
        problem = "%d cases failed inside the harness, e.g. %s: %s" % (len(errors), errors[0][0], errors[0][1].detail[-1500:])
    elif len(invalid) > max(2, check.max_invalid * len(cases)):
        problem = "%d of %d programs were unusable" % (len(invalid), len(cases))
    elif len(inconcl) > max(2, 0.2 * len(cases)):
        problem = "%d of %d cases inconclusive" % (len(inconcl), len(cases))
    extra = {}
    if not problem and not limit and only is None:
        try:
            extra = check.finish(stats, tier) or {}
        except B.HarnessError as e:
            problem = str(e)
    samples.sort()
    cov = {"evaluations": stats["cases"], "distinct_nontrivial": len(keys), "rule": check.rule,
           "samples": [s for _, s in samples[:6]] or ["none"],
           "observed": {k: v for k, v in sorted(stats.items())},
           "discarded": {"invalid": len(invalid), "inconclusive": len(inconcl)},
           "known_findings_seen": [k["what"] for _, _, k in known]}
    cov.update(extra)
    ev = {"property": check.prop, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": check.assumptions, "violations": vout, "wall_s": round(time.time() - t0, 1)}
    if problem:
        ev["problem"] = problem
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, check.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(p + ".tmp", p)
    print("%s %s: %d cases, %d distinct, %d violations, %d invalid, %d inconclusive, %s, %.1fs" % (
        check.prop, tier, stats["cases"], len(keys), len(vout), len(invalid), len(inconcl),
        ", ".join("%s=%d" % kv for kv in sorted(stats.items()) if kv[0] not in ("cases",)), time.time() - t0))
    if problem and rc == 0:
        sys.stderr.write("HARNESS: " + problem + "\n")
        return 2
    return rc
