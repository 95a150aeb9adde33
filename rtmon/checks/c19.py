"""C19: independence of the sources, containment of the output."""
import contextlib
import os
import shutil
import sys

from .. import faults, pristine
from .common import *
from .c12 import content, rand_controls

ID = "C19"
RULE = ("runs of main() over batches of sources (valid, empty, garbage, damaged, missing, unreadable at some byte, duplicates, "
        "links, files with odd names and extensions in several folders) in random orders and modes, several runs per process, other runs with other settings in between, with "
        "stale content in the product folders; every source's products and log are compared with those of converting it alone "
        "in the same place by a fresh process, and snapshots of everything else before and after are compared; an audit hook records every path "
        "opened for writing, created, removed or renamed; non-trivial: batches of at least two sources")
MINIMUM = {"batches": 100, "sources_compared": 250, "audited_writes": 2000, "aborted_sources": 15, "stale_files": 50, "linked_sources": 20}


REPEAT = 2


def jobs(tier, seed):
    k = 1 if tier == "quick" else 15
    for mode in sut.MODES:
        for i in range(20 * k):
            yield dict(kind="batch", mode=mode, i=i, seed=seed)
        for i in range(4 * k):
            yield dict(kind="big", mode=mode, i=i, seed=seed)
    yield dict(kind="samestem", seed=seed)


# --- audit ---------------------------------------------------------------------------

_events = None
_installed = False
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
    if _events is None:
        return
    try:
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int):
                return
            if (flags or 0) & _WRITE or (mode and any(ch in mode for ch in "wax+")):
                _events.append((event, os.path.abspath(os.fsdecode(path))))
        elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate", "os.chmod", "os.utime"):
            p, dirfd = args[0], args[-1]
            if isinstance(p, int):
                return
            p = os.fsdecode(p)
            if isinstance(dirfd, int) and dirfd >= 0 and not os.path.isabs(p):
                p = os.path.join(os.readlink(f"/proc/self/fd/{dirfd}"), p)
            _events.append((event, os.path.abspath(p)))
        elif event in ("os.rename", "os.link", "os.symlink"):
            for p in args[:2]:
                if not isinstance(p, int):
                    _events.append((event, os.path.abspath(os.fsdecode(p))))
        elif event in ("shutil.rmtree",):
            _events.append((event, os.path.abspath(os.fsdecode(args[0]))))
    except OSError:
        pass


class audit:
    def __enter__(self):
        global _events, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _events = []
        return _events

    def __exit__(self, *a):
        global _events
        _events = None


# --- workload ------------------------------------------------------------------------

NAMES = ("a", "b", "data 1", "x.y.z", "файл", "UPPER", "-dash", "a-JSON", "log", "n" * 60, "q'uote", "[br]", "noext", "2024-01-01",
         "dot.", "two..", ".hid", "v1.0", "tr ")
EXTS = (".rtcm3", ".rtcm3", ".RTCM", ".bin", ".rtcm3.dat", "", ".obs", ".json")


def material(rng):
    k = rng.randrange(8)
    if k == 0:
        return b""
    if k == 1:
        return gen.noise(rng, rng.choice((3, 500)))
    if k == 2:
        return content(dict(kind=rng.choice(("mutated", "supported", "msm"))), rng)[:20000]
    if k in (3, 4):
        return b"".join(gen.session(rng, rng.randrange(4, 25)))
    return gen.stream(rng, rng.randrange(1, 40), bad=rng.choice((0, .1)), gaps=rng.choice((0, .1)))


def stem_of(path):
    return os.path.splitext(path)[0]


def folder(path, mode):
    return f"{stem_of(path)}-{mode}"


def subtree(t, d, folder_path):
    rel = os.path.relpath(folder_path, d)
    return {k: v for k, v in t.items() if k == rel or k.startswith(rel + os.sep)}


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "samestem":
        return samestem(mon, rng)
    batch(spec, mon, rng, spec["mode"], big=k == "big")


def place(rng, root, n):
    """Source paths with distinct stems."""
    dirs = [root]
    for name in rng.sample(("sub", "deep/er", "with space", "a-MARGO", "v1.2", "v1.2/raw.d", "x.rtcm3"), 2):
        p = os.path.join(root, name)
        os.makedirs(p, exist_ok=True)
        dirs.append(p)
    paths, stems = [], set()
    while len(paths) < n:
        p = os.path.join(rng.choice(dirs), rng.choice(NAMES) + rng.choice(EXTS))
        if stem_of(p) in stems or any(os.path.isdir(folder(p, m)) for m in sut.MODES) or os.path.exists(p):
            continue
        # no source may be where another one's folder belongs
        if any(q == folder(r, m) for q, r in [(p, x) for x in paths + [p]] + [(x, p) for x in paths] for m in sut.MODES):
            continue
        stems.add(stem_of(p))
        paths.append(p)
    return paths


def go(wd, mode, args, limits, excs):
    """One run -> (exception, audited events, faults fired)"""
    plan = faults.Plan()
    plan.read_limit = limits.get
    plan.read_exc_of = excs.get
    with faults.inject(plan), audit() as ev:
        info = sut.run_main(wd, ["-o", mode, "--"] + args)
        got = list(ev)
    return None if info.exc is None else repr(info.exc), got, faults.fired(plan)


def unrelated(rng, d, datas):
    """A run with other settings, another mode and perhaps a failing source, elsewhere."""
    with sut.scratch() as o:
        c = rand_controls(rng)
        with open(os.path.join(o, "defaults.ini"), "w", encoding="utf-8") as f:
            f.write(sut.repo_defaults())
        ini = os.path.join(o, "u.ini")
        with open(ini, "w", encoding="utf-8") as f:
            f.write(c.ini())
        ps = []
        for i, v in enumerate(rng.sample(list(datas.values()), 2)):
            ps.append(os.path.join(o, f"{'ab'[i]}.rtcm3"))
            with open(ps[-1], "wb") as f:
                f.write(v + gen.good_frame(rng)[:-rng.randrange(1, 5)])
        go(o, rng.choice(sut.MODES), ps, {ps[0]: 0} if rng.random() < .3 else {}, {})
        if rng.random() < .5:
            sut.run_main(o, ["-o", rng.choice(sut.MODES), "-i", ini] + ps)


def settle(root, p, mode, alone):
    """Keeps what converting p alone gave, removes it from the folder."""
    alone[p] = subtree(sut.tree(root), root, folder(p, mode))
    shutil.rmtree(folder(p, mode), ignore_errors=True)


def batch(spec, mon, rng, mode, big=False):
    n = rng.randrange(5, 10) if big else rng.randrange(2, 5)
    with sut.scratch() as d:
        root = os.path.join(d, "r")
        wd = os.path.join(d, "w")
        os.makedirs(root)
        os.makedirs(wd)
        with open(os.path.join(wd, "defaults.ini"), "w", encoding="utf-8") as f:
            f.write(sut.repo_defaults())
        paths = place(rng, root, n)
        datas = {p: material(rng) for p in paths}
        for i, (p, v) in enumerate(datas.items()):
            t = p
            if rng.random() < .2:  # a source may be a link to a file kept elsewhere
                mon.count("linked_sources")
                if i and rng.random() < .5:  # or to another source
                    t = paths[rng.randrange(i)]
                    os.symlink(t, p)
                    datas[p] = datas[t]
                    continue
                t = os.path.join(d, "store", f"kept{i}.rtcm3")
                os.makedirs(os.path.dirname(t), exist_ok=True)
                os.symlink(t, p)
            with open(t, "wb") as f:
                f.write(v)
        # bystanders
        bys = ["bystander.txt", "sub/other.rtcm3" if os.path.isdir(os.path.join(root, "sub")) else "other.rtcm3",
               "MSM7/GPS-MSM7-1077.json", "GPS/GC1C_MSM7.obs", "keep-log.txt"]
        for b in bys:
            p = os.path.join(root, b)
            if not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b"keep me")
        other_mode = rng.choice([m for m in sut.MODES if m != mode])
        limits = {}
        for p in paths:
            if len(datas[p]) > 4096 and rng.random() < .3:
                limits[p] = 4096
        excs = {p: rng.choice((OSError(5, "injected"), KeyboardInterrupt(), ValueError("injected"))) for p in limits}

        # each source alone, in a process of its own
        alone = {}
        res = pristine.calls("rtmon.checks.c19", "go", [(wd, mode, [p], limits, excs) for p in paths], between=[
            lambda p=p: settle(root, p, mode, alone) for p in paths])
        for p, (exc, ev, fired) in zip(paths, res):
            if exc is not None:
                mon.fail(f"{mode}: {os.path.basename(p)} alone: main() raised {exc}", datas[p].hex())
                return
            contained(mon, ev, [folder(p, mode)], f"{mode}: {os.path.basename(p)} alone")
            mon.count("aborted_sources", fired > 0)

        for rep in range(3):
            # stale content, products of another mode
            stale = rng.sample(paths, rng.randrange(0, len(paths) + 1))
            for p in stale:
                mon.count("stale_files")
                what = rng.randrange(6)
                if what == 0:  # an empty folder
                    os.makedirs(folder(p, mode), exist_ok=True)
                    continue
                if what == 1:  # links that lead out of it
                    os.makedirs(folder(p, mode), exist_ok=True)
                    for name, to in (("GPS", os.path.join(root, "MSM7")), ("MSM7", os.path.join(root, "GPS")),
                                     ("EPH", os.path.join(root, "bystander.txt"))):
                        with contextlib.suppress(FileExistsError):
                            os.symlink(to, os.path.join(folder(p, mode), name))
                    continue
                q = os.path.join(folder(p, mode), rng.choice(("MSM7", "GPS", "old/deeper", "")))
                os.makedirs(q, exist_ok=True)
                with open(os.path.join(q, rng.choice(("GPS-MSM7-1077.json", "stale.txt", "GC1C_MSM7.obs"))), "wb") as f:
                    f.write(b"stale")
            q = os.path.join(folder(paths[0], other_mode), "old.txt")
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(b"another mode")
            order = list(paths)
            rng.shuffle(order)
            if rng.random() < .5:
                unrelated(rng, d, datas)
                mon.count("unrelated_runs")
            args = []
            for p in order:
                if rng.random() < .25:
                    args.append(os.path.join(root, rng.choice(("absent.rtcm3", "no/where.rtcm3", "sub"))))
                args.append(p if rng.random() < .7 else os.path.relpath(p, wd))
                if rng.random() < .1:
                    args.append(p)  # listed twice
            before = sut.tree(d)
            exc, ev, fired = go(wd, mode, args, limits, excs)
            mon.count("batches")
            mon.count("aborted_sources", fired > 0)
            mon.count("audited_writes", len(ev))
            detail = {"args": args, "mode": mode, "limits": limits, "datas": {k: v.hex() for k, v in datas.items()}}
            if exc is not None:
                mon.fail(f"{mode}: main() raised {exc}", detail)
                return
            after = sut.tree(d)
            contained(mon, ev, [folder(p, mode) for p in paths], f"{mode} batch")
            inside = set()
            for p in paths:
                t = subtree(after, d, folder(p, mode))
                inside |= set(t)
                got = {os.path.relpath(os.path.join(d, k), root): v for k, v in t.items()}
                mon.count("sources_compared")
                bad = sorted(k for k in set(got) | set(alone[p]) if got.get(k, 0) != alone[p].get(k, 0))
                if bad:
                    mon.fail(f"{mode}: {os.path.basename(p)} ({order.index(p) + 1} of {n}) in a batch differs from converting it "
                             f"alone: {bad[:3]}", detail)
                log = alone[p].get(os.path.relpath(os.path.join(folder(p, mode), os.path.basename(stem_of(p)) + "-log.txt"), root))
                if log is None:
                    mon.fail(f"{mode}: no log {os.path.basename(stem_of(p))}-log.txt", detail)
            was = {k for k in before if any(k == os.path.relpath(folder(p, mode), d) or
                                            k.startswith(os.path.relpath(folder(p, mode), d) + os.sep) for p in paths)}
            rest_b = {k: v for k, v in before.items() if k not in was}
            rest_a = {k: v for k, v in after.items() if k not in inside}
            bad = sorted(k for k in set(rest_a) | set(rest_b) if rest_a.get(k, 0) != rest_b.get(k, 0))
            if bad:
                mon.fail(f"{mode}: changed outside the product folders: {bad[:4]}", detail)
            mon.case((mode, tuple(os.path.basename(a) for a in args), b"".join(datas[p] for p in order)))
            mon.sample({"mode": mode, "args": [os.path.basename(a) for a in args], "writes": len(ev),
                        "read_faults": len(limits)}, 1)


def contained(mon, ev, folders, label):
    for what, p in ev:
        if not any(p == f or p.startswith(f + os.sep) for f in folders) and p != os.devnull:
            mon.fail(f"{label}: {what} {p}", None)
            return


def samestem(mon, rng):
    """Two sources of one run whose product folders coincide."""
    for mode in sut.MODES:
        with sut.scratch() as d:
            with open(os.path.join(d, "defaults.ini"), "w", encoding="utf-8") as f:
                f.write(sut.repo_defaults())
            data = gen.good_frame(rng, 1077) + gen.good_frame(rng, 1097)
            a, b = os.path.join(d, "x.rtcm3"), os.path.join(d, "x.bin")
            with open(a, "wb") as f:
                f.write(data[:len(data)])
            with open(b, "wb") as f:
                f.write(gen.good_frame(rng, 1124))
            sut.run_main(d, ["-o", mode, a])
            alone = sut.tree(os.path.join(d, f"x-{mode}"))
            sut.run_main(d, ["-o", mode, a, b])
            both = sut.tree(os.path.join(d, f"x-{mode}"))
            mon.case((mode, "samestem"))
            prods = [p for p, v in alone.items() if v is not None and not p.endswith("-log.txt")]
            if any(both.get(p) != alone[p] for p in prods):
                mon.fail(f"{mode}: x.rtcm3 and x.bin in one run: the products of the first are lost", None, key="same-stem")
