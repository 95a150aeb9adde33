"""C24: failing output and input."""
import errno
import os
import shutil

from .. import faults
from .common import *
from .c12 import rand_controls

ID = "C24"
LEVEL = "fault_enumeration"
RULE = ("batches of three sources, the faults concerning the second only: for every product file of it the creation fails "
        "(always, once, at the second attempt), every product folder, subsets of products, writing fails after a number of "
        "bytes, the source fails to open or at a read, the work folder cannot be created or emptied, the log cannot be "
        "created, reopened or written; compared with a run without faults; non-trivial: runs in which the injected fault fired")
MINIMUM = {"faults_fired": 1200, "creation_faults": 150, "folder_faults": 40, "write_faults": 300, "read_faults": 60,
           "work_folder_faults": 30, "log_faults": 80, "neighbours_compared": 2000}


class Unknown(Exception):
    """A failure of a kind of its own."""


def jobs(tier, seed):
    k = 3 if tier == "quick" else 40
    for i in range(k):
        for mode in sut.MODES:
            for part in ("create", "write", "rest"):
                yield dict(mode=mode, part=part, i=i, seed=seed)


def source(rng, style, mode):
    out = []
    nums = rng.sample(sorted(ref.MSM_NUMBERS), rng.randint(1, 4))
    if mode != "MARGO":
        nums += rng.sample(sorted(ref.EPH_NUMBERS), 2) + rng.sample(sorted(ref.BASE_NUMBERS), 3)
    for _ in range(rng.randrange(12, 30)):
        n = rng.choice(nums)
        if n in ref.MSM_NUMBERS:
            pool = sorted(ref.SIGNALS[ref.MSM_NUMBERS[n][0]])
            m = gen.msm(rng, n, in_range=True, time="valid", valid=1.0, sigs=sorted(rng.sample(pool, min(2, len(pool)))))
            out.append(gen.msm_frame(rng, m))
        else:
            out.append(gen.good_frame(rng, n))
        if style == "dirty":
            if rng.random() < .1:
                out.append(gen.bad_frame(rng, n))
            if rng.random() < .1:
                out.append(gen.noise(rng, 20, "nod3"))
    data = b"".join(out)
    if style == "long":
        while len(data) < 10000:
            data += b"".join(out)
    return data


class Batch:
    def __init__(self, rng, mode):
        self.mode = mode
        self.c = rand_controls(rng)
        self.style = rng.choice(("clean", "clean", "dirty", "long"))
        self.data = {"a": source(rng, "clean", mode), "b": source(rng, self.style, mode), "c": source(rng, "dirty", mode)}
        self.base = self.run(faults.Plan())
        self.goes = self.targets()

    def targets(self):
        """{product: [needed flag per message]}, in message order"""
        s = ref.scan(self.data["b"])
        e = judge.expect(s.frames, [], self.mode)
        rv = {}
        for i, r in enumerate(e.results):
            if judge.status(r, self.mode) != ref.OK:
                if judge.status(r, self.mode) == ref.OPEN:
                    self.open = True
                continue
            if r.kind == "MSM" and self.mode in ("MARGO", "JARGO"):
                for path, _l, _s, _t, _row, opt in ref.margo_rows(r.msm, r.scaled, self.c):
                    d = rv.setdefault(path, {})
                    d[i] = d.get(i, False) or not opt
            else:
                rv.setdefault(ref.json_path(r.num), {})[i] = True
        return rv

    open = False

    def run(self, plan, before=None, around=None):
        """{name: (exists, files, log)}, exception"""
        with sut.scratch() as d:
            wd, sd = os.path.join(d, "cwd"), os.path.join(d, "data")
            os.mkdir(wd)
            os.mkdir(sd)
            with open(os.path.join(wd, "defaults.ini"), "w", encoding="utf-8") as f:
                f.write(self.c.ini())
            ps = []
            for n in "abc":
                p = os.path.join(sd, n + ".rtcm3")
                with open(p, "wb") as f:
                    f.write(self.data[n])
                ps.append(p)
            if before:
                before(sd)
            plan.root = sd
            with faults.inject(plan):
                undo = around(sd, plan) if around else None
                try:
                    info = sut.run_main(wd, ["-o", self.mode] + ps)
                finally:
                    if undo:
                        undo()
            rv = {"exc": info.exc}
            for n in "abc":
                fld = os.path.join(sd, f"{n}-{self.mode}")
                if not os.path.isdir(fld):
                    rv[n] = (False, {}, None)
                    continue
                t = {k: v for k, v in sut.tree(fld).items() if v is not None}
                log = t.pop(f"{n}-log.txt", None)
                log = None if log is None else log.decode("utf-8", "replace").replace(sd, "<dir>")
                rv[n] = (True, t, log)
        return rv


def run(spec, mon):
    rng = rng_of(ID, spec)
    mode = spec["mode"]
    b = Batch(rng, mode)
    base = b.base
    if base["exc"] is not None:
        mon.fail(f"{mode}: main() raised {base['exc']!r} without any fault", {k: v.hex() for k, v in b.data.items()})
        return
    fld = f"b-{mode}"
    prods = sorted(base["b"][1])
    last0, verdict0 = sut.log_facts(base["b"][2])
    if not prods or last0 is None:
        mon.fail(f"{mode}: the conversion without faults has no product or log", {k: v.hex() for k, v in b.data.items()})
        return

    def rel(p, plan):
        return os.path.relpath(p, plan.root)

    def go(what, kind, plan, expect_verdict=("errors",), others=None, errs=None, log_equal=False, no_folder=False, **kw):
        r = b.run(plan, **kw)
        n = faults.fired(plan)
        if not n:
            mon.count("faults_not_reached")
        else:
            mon.count("faults_fired")
            mon.count(kind)
        mon.case((what, spec["mode"], spec["i"], spec["seed"]) if n else None)
        det = {"fault": what, "mode": mode, "spec": spec, "b": b.data["b"].hex()}
        if r["exc"] is not None:
            mon.fail(f"{mode}, {what}: main() raised {r['exc']!r}", det)
            return
        for x in "ac":
            mon.count("neighbours_compared")
            if r[x] != base[x]:
                diff = [k for k in set(r[x][1]) | set(base[x][1]) if r[x][1].get(k) != base[x][1].get(k)]
                mon.fail(f"{mode}, {what} (source 'b'): source '{x}' is converted differently: products {sorted(diff)[:4]}, "
                         f"log {'equal' if r[x][2] == base[x][2] else 'differs'}", det)
        if not n:
            return
        _, got, log = r["b"]
        last, v = sut.log_facts(log)
        if no_folder:
            if v is not None:
                mon.fail(f"{mode}, {what}: verdict {v} although the source was not converted", det)
            return
        if expect_verdict is not None and v not in expect_verdict:
            mon.fail(f"{mode}, {what}: verdict {v}, expected {'/'.join(map(str, expect_verdict))}", det)
        if others is not None:
            for p in prods:
                if p in others:
                    continue
                if got.get(p) != base["b"][1][p]:
                    mon.fail(f"{mode}, {what}: product {p} is not what it is without the fault", det)
                    break
            extra = set(got) - set(prods)
            if extra:
                mon.fail(f"{mode}, {what}: additional products {sorted(extra)[:3]}", det)
        if errs is not None and last is not None:
            lo, hi = errs
            if not lo <= last[4] <= hi:
                mon.fail(f"{mode}, {what}: {last[4]} printing errors in the log, {lo if lo == hi else errs} messages were not saved",
                         det)
            if last[:4] != last0[:4]:
                mon.fail(f"{mode}, {what}: progress {last} differs from {last0} in more than printing errors", det)
            nlines = sum("ERROR" in line for line in (log or "").splitlines())
            if nlines < lo:
                mon.fail(f"{mode}, {what}: {nlines} error lines in the log for {lo} messages not saved", det)
        if errs is not None and last is None:
            mon.fail(f"{mode}, {what}: no progress line in the log", det)

    def lost(paths):
        lo = set()
        hi = set()
        for p in paths:
            for i, need in b.goes.get(p, {}).items():
                hi.add(i)
                if need:
                    lo.add(i)
        return len(lo), len(hi) + (10 ** 6 if b.open else 0)

    part = spec["part"]
    if part == "create":
        def failing(paths, only=None):
            plan = faults.Plan()
            plan.open_exc = OSError(*rng.choice(((errno.EACCES, "injected"), (errno.ENOSPC, "injected"), (errno.EMFILE, "injected"),
                                                (errno.EROFS, "injected"))))
            seen = []

            def hit(p, _m):
                if rel(p, plan) not in {os.path.join(fld, x) for x in paths}:
                    return False
                seen.append(p)
                return only is None or len(seen) - 1 in only
            plan.open_fail = hit
            return plan

        for p in prods:
            go(f"{p} cannot be created", "creation_faults", failing({p}), others={p}, errs=lost({p}))
            go(f"{p} cannot be created once", "creation_faults", failing({p}, {0}), others={p})
            go(f"{p} cannot be created twice", "creation_faults", failing({p}, {0, 1}), others={p})
        for _ in range(4):
            sub = set(rng.sample(prods, rng.randint(1, len(prods))))
            go(f"{len(sub)} products cannot be created", "creation_faults", failing(sub), others=sub, errs=lost(sub))
        go("no product can be created", "creation_faults", failing(set(prods)), others=set(prods), errs=lost(prods))
        for d in sorted({os.path.dirname(p) for p in prods}):
            sub = {p for p in prods if os.path.dirname(p) == d}
            plan = faults.Plan()
            plan.dir_fail = lambda p, plan=plan, d=d: rel(p, plan) == os.path.join(fld, d)
            go(f"folder {d} cannot be created", "folder_faults", plan, others=sub, errs=lost(sub))
    elif part == "write":
        for p in prods:
            size = len(base["b"][1][p])
            for lim in sorted({0, 1, size // 2, size - 1, rng.randrange(size)}):
                if lim >= size:
                    continue
                plan = faults.Plan()
                plan.write_limit = lambda q, plan=plan, p=p, lim=lim: lim if rel(q, plan) == os.path.join(fld, p) else None
                plan.write_exc = OSError(*rng.choice(((errno.ENOSPC, "injected"), (errno.EIO, "injected"), (errno.EDQUOT, "injected"),
                                                      (errno.EPIPE, "injected"), (errno.ETIMEDOUT, "injected"))))
                go(f"writing {p} fails after {lim} bytes", "write_faults", plan, ("terminated",))
        lim = rng.randrange(60)
        plan = faults.Plan()
        plan.write_limit = lambda q, plan=plan: lim if rel(q, plan).startswith(fld + os.sep) and not q.endswith("-log.txt") else None
        go(f"writing any product fails after {lim} bytes", "write_faults", plan, ("terminated",))
    else:
        size = len(b.data["b"])
        for lim in sorted({0, 1, 4095, 4096, 8192, size // 2, size - 1, size}):
            if lim > size:
                continue
            plan = faults.Plan()
            plan.read_limit = lambda q, plan=plan, lim=lim: lim if rel(q, plan) == "b.rtcm3" else None
            plan.read_exc = rng.choice((OSError(errno.EIO, "injected"), OSError(errno.ESTALE, "injected"), MemoryError("injected"),
                                        EOFError("injected"), TimeoutError(), ArithmeticError("injected"), Unknown("injected")))
            go(f"reading the source fails after {lim} bytes", "read_faults", plan, ("terminated",))
        for exc in (PermissionError(errno.EACCES, "injected"), FileNotFoundError(errno.ENOENT, "injected"),
                    OSError(errno.EMFILE, "injected")):
            plan = faults.Plan()
            plan.open_exc = exc
            plan.read_open_fail = lambda q, plan=plan: rel(q, plan) == "b.rtcm3"
            go(f"the source cannot be opened ({type(exc).__name__})", "read_faults", plan, ("terminated",))
        # work folder
        plan = faults.Plan()
        plan.dir_fail = lambda q, plan=plan: rel(q, plan) == fld
        go("the work folder cannot be created", "work_folder_faults", plan, no_folder=True)

        def in_the_way(sd):
            with open(os.path.join(sd, fld), "wb") as f:
                f.write(b"in the way")

        plan = faults.Plan()
        plan.dir_fail = lambda q, plan=plan: _note(plan, rel(q, plan) == fld)
        go("a file lies where the work folder should be", "work_folder_faults", plan, before=in_the_way, no_folder=True)

        def old(sd):
            os.makedirs(os.path.join(sd, fld, "MSM7"))
            with open(os.path.join(sd, fld, "MSM7", "old.json"), "wb") as f:
                f.write(b"old")

        def no_rmtree(sd, plan):
            real = shutil.rmtree

            def my(path, *a, **k):
                if rel(os.path.abspath(path), plan) == fld:
                    plan.stats["fired"] += 1
                    raise PermissionError(errno.EACCES, "injected")
                return real(path, *a, **k)
            shutil.rmtree = my
            return lambda: setattr(shutil, "rmtree", real)

        go("the old work folder cannot be removed", "work_folder_faults", faults.Plan(), before=old, around=no_rmtree, no_folder=True)

        def no_unlink(sd, plan):
            real = os.unlink, os.remove, os.rmdir

            def mk(f):
                def my(path, *a, **k):
                    if os.path.basename(os.fsdecode(path)) in ("old.json", "MSM7"):
                        plan.stats["fired"] += 1
                        raise PermissionError(errno.EACCES, "injected")
                    return f(path, *a, **k)
                return my
            os.unlink, os.remove, os.rmdir = map(mk, real)
            return lambda: [setattr(os, n, f) for n, f in zip(("unlink", "remove", "rmdir"), real)]

        go("a file in the old work folder cannot be removed", "work_folder_faults", faults.Plan(), before=old, around=no_unlink,
           no_folder=True)
        # log
        logp = os.path.join(fld, "b-log.txt")
        for name, sel in (("cannot be created", lambda m, n: "w" in m), ("cannot be opened", lambda m, n: True),
                          ("cannot be opened at first", lambda m, n: n == 0), ("cannot be reopened", lambda m, n: n == 1)):
            plan = faults.Plan()
            cnt = []

            def hit(q, m, plan=plan, cnt=cnt, sel=sel):
                if rel(q, plan) != logp:
                    return False
                cnt.append(1)
                return sel(m, len(cnt) - 1)
            plan.open_fail = hit
            go(f"the log {name}", "log_faults", plan, None, others=())
        full = len(base["b"][2])
        for lim in sorted({0, 1, 30, 60, full // 2, full - 3}):
            plan = faults.Plan()
            plan.write_limit = lambda q, plan=plan, lim=lim: lim if rel(q, plan) == logp else None
            go(f"writing the log fails after {lim} bytes", "log_faults", plan, None, others=())
    mon.sample({"mode": mode, "part": part, "style": b.style, "products": len(prods), "verdict_without_fault": verdict0}, 1)


def _note(plan, yes):
    if yes:
        plan.stats["fired"] += 1
    return False
