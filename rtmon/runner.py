"""Runs one property's monitored workload and reports.

exit 0  the property held on everything explored
exit 1  VIOLATION lines
exit 2  inconclusive (harness error, monitors not reached)
"""

from __future__ import annotations

import concurrent.futures as cf
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from multiprocessing import get_context

from . import pristine, sut

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.json")
JOB_CPU = 150  # s of CPU time after which a job counts as not terminating
MAX_BAD_JOBS = int(os.environ.get("RTMON_MAX_BAD", "3"))


SHAPE = (TypeError, AttributeError, LookupError, ValueError, AssertionError, ArithmeticError, StopIteration,
         FileNotFoundError, NotADirectoryError, IsADirectoryError)


class Monitor:
    """Collects what one job observed."""

    def __init__(self):
        self.evals = 0
        self.sigs: set[int] = set()
        self.counters: dict[str, int] = {}
        self.samples: list = []
        self.fails: list = []  # (text, detail, key)

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, sig=None, n=1):
        """One evaluated case; sig identifies it when it is non-trivial."""
        self.evals += n
        if sig is not None:
            if not isinstance(sig, (bytes, bytearray)):
                sig = repr(sig).encode()
            self.sigs.add(int.from_bytes(hashlib.blake2b(sig, digest_size=8).digest(), "big"))

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def fail(self, text, detail=None, key=None):
        if len(self.fails) < 8 or key:
            self.fails.append((str(text)[:600], detail, key))

    def fails_of(self, texts, detail=None, prefix=""):
        for t in texts[:4]:
            self.fail(prefix + t, detail)


def _timeout(_sig, _frm):
    raise sut.CaseTimeout()


def _job(modname, spec):
    mon = Monitor()
    err = None
    signal.signal(signal.SIGVTALRM, _timeout)
    signal.setitimer(signal.ITIMER_VIRTUAL, spec.get("cpu", JOB_CPU) if isinstance(spec, dict) else JOB_CPU)
    try:
        with sut.quiet():
            sut.load()
            importlib.import_module(modname).run(spec, mon)
    except sut.CaseTimeout:
        mon.fail("no progress: the job did not terminate within its CPU budget "
                 "(normally a small fraction of it)")
        sut.release_logger()
    except BaseException as ex:  # pylint: disable=broad-exception-caught
        tb = traceback.extract_tb(ex.__traceback__)
        txt = "".join(traceback.format_exception(ex))[-3000:]
        repo = os.path.realpath(sut.REPO) + os.sep
        inner = [f for f in tb if os.path.realpath(f.filename).startswith((repo, VERIF + os.sep))]
        if inner and os.path.realpath(inner[-1].filename).startswith(repo):
            mon.fail(f"the code under test raised {type(ex).__name__}: {ex}", txt)
            sut.release_logger()
        elif isinstance(ex, pristine.PristineError) and ex.args[0].startswith(pristine.SUT):
            mon.fail(f"in a fresh process: {ex.args[0][:100]} {ex.args[0].strip().splitlines()[-1]}", ex.args[0][-3000:])
        elif isinstance(ex, SHAPE) and not isinstance(ex, ImportError):
            # the oracles interpret everything the unchanged code produces, so this is an observation outside its range
            mon.fail(f"what the code produced cannot be interpreted: {type(ex).__name__}: {ex}", txt)
            sut.release_logger()
        else:
            err = txt
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return spec, mon, err


def _init(root):
    os.environ["RTMON_SCRATCH"] = root
    sut._scratch_root = None
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def load_findings(prop):
    try:
        with open(FINDINGS, encoding="utf-8") as f:
            doc = json.load(f)
    except FileNotFoundError:
        return {}
    return {x["key"]: x["what"] for x in doc.get("findings", []) if x["property"] == prop}


def scratch_base():
    for d in ("/dev/shm", None):
        try:
            return tempfile.mkdtemp(prefix="rtmon-", dir=d)
        except OSError:
            continue
    raise SystemExit(2)


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
        else:
            print(f"unknown argument {a}")
            return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    modname = f"rtmon.checks.{prop.lower()}"
    mod = importlib.import_module(modname)
    if replay:
        with open(replay, encoding="utf-8") as f:
            jobs = [json.load(f)["spec"]]
    else:
        n = getattr(mod, "REPEAT", 1) if tier == "quick" else 1
        uniq = {}  # jobs that do not depend on the seed are run once
        for i in range(n):
            for j in mod.jobs(tier, seed + 7919 * i):
                uniq.setdefault(json.dumps(j, sort_keys=True), j)
        jobs = list(uniq.values())
    if "RTMON_SHUFFLE" in os.environ:  # for trials with a small RTMON_LIMIT
        random.Random(seed).shuffle(jobs)
    root = scratch_base()
    limit = float(os.environ.get("RTMON_LIMIT", 600 if tier == "quick" else 5400))
    total = Monitor()
    bad, errors, done, skipped = [], [], 0, 0
    known = load_findings(prop)
    seen_known = {}
    workers = int(os.environ.get("RTMON_WORKERS", os.cpu_count() or 4))
    pool = cf.ProcessPoolExecutor(workers,
                                  mp_context=get_context("fork"), initializer=_init, initargs=(root,))
    try:
        pending, it = set(), iter(jobs)
        stop = False
        while True:
            while not stop and len(pending) < 3 * workers:
                try:
                    spec = next(it)
                except StopIteration:
                    stop = True
                    break
                pending.add(pool.submit(_job, modname, spec))
            if not pending:
                break
            finished, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for fut in finished:
                spec, mon, err = fut.result()
                done += 1
                total.evals += mon.evals
                total.sigs |= mon.sigs
                for k, v in mon.counters.items():
                    total.count(k, v)
                for s in mon.samples:
                    if len(total.samples) < 6:
                        total.samples.append(s)
                if err:
                    errors.append((spec, err))
                new = []
                for f in mon.fails:
                    if f[2] is not None and f[2] in known:
                        seen_known[f[2]] = f[0]
                    else:
                        new.append(f)
                if new:
                    bad.append((spec, new))
            if len(bad) >= MAX_BAD_JOBS or len(errors) >= 3:
                break
            if time.time() - t0 > limit and not stop:
                stop = True
        skipped = len(jobs) - done
    except cf.process.BrokenProcessPool as ex:
        errors.append((None, f"worker process died: {ex}"))
    finally:
        procs = list((getattr(pool, "_processes", None) or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        if bad or errors:
            for p in procs:
                p.kill()
        for p in procs:
            p.join(20)
        shutil.rmtree(root, ignore_errors=True)

    low = {k: (total.counters.get(k, 0), v) for k, v in getattr(mod, "MINIMUM", {}).items()
           if total.counters.get(k, 0) < v}
    if replay or bad:
        low = {}
    verdict = "violated" if bad else "inconclusive" if errors or low else "held"
    cov = {
        "evaluations": total.evals,
        "distinct_nontrivial": len(total.sigs),
        "rule": mod.RULE,
        "samples": total.samples or ["none"],
        "monitor_events": dict(sorted(total.counters.items())),
        "jobs_done": done,
        "jobs_not_run": skipped,
        "verdict": verdict,
    }
    if getattr(mod, "EXHAUSTIVE", None):
        cov["exhaustive_part"] = mod.EXHAUSTIVE
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", [
            "the independent reference in rtmon/ref.py states RTCM 10403 correctly",
            "CPython and the standard library behave as documented"]),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")

    for key, what in known.items():
        if key in seen_known or not bad:
            if key in seen_known:
                print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop} {tier} seed={seed}: {total.evals} evaluations, {len(total.sigs)} distinct, "
          f"{done} jobs, {time.time() - t0:.1f} s")
    print("events: " + ", ".join(f"{k}={v}" for k, v in sorted(total.counters.items())))
    for spec, err in errors[:3]:
        print(f"HARNESS ERROR in job {str(spec)[:300]}\n{err}")
    if bad:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, (spec, fails) in enumerate(bad[:MAX_BAD_JOBS]):
            path = replay
            if not replay:
                path = os.path.join(rdir, f"{prop}-{i + 1}.json")
                with open(path, "w", encoding="utf-8") as f:
                    json.dump({"property": prop, "tier": tier, "seed": seed, "spec": spec,
                               "violations": [{"what": a, "detail": b, "key": k} for a, b, k in fails]},
                              f, indent=1, default=repr)
            for a, _, _ in fails[:4]:
                print(f"  {a}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        return 2
    if low:
        print(f"INCONCLUSIVE: monitors not reached often enough: {low}")
        return 2
    print("held")
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:  # pylint: disable=broad-exception-caught
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
