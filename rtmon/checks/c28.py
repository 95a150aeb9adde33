"""C28: the log tells the fate of every message."""
import os
import re

from .. import faults
from .common import *
from .c12 import content, rand_controls

ID = "C28"
RULE = ("streams of well-formed, malformed and unsupported messages with garbage, station sessions and mutated recordings "
        "converted by main() in every mode, alone and in batches, also aborted by a failing source: the log's entries about "
        "messages are parsed into a sequence of (number, fate) and compared with the reference's sequence for the same bytes; "
        "opening, progress, closing and verdict entries must come in that order; non-trivial: logs of sources with messages")
MINIMUM = {"logs": 250, "entries_compared": 15000, "failed_entries": 1000, "unsupported_entries": 1000, "aborted": 10}

FAILED = re.compile(r"^\w+:(?:ERROR|WARNING): .*unexpected result for msg (\d+)")
DETAIL = re.compile(r"^\w+:ERROR: Msg (\d+)\. Decoding failed")
DONE = re.compile(r"^\w+:INFO: Msg (\d+)\. Decoding succeeded")
SKIPPED = re.compile(r"^\w+:INFO: Decoder not found, message (\d+)")
TIME = re.compile(r"t = (-?\d+), sats = (\d+)")


REPEAT = 4
STEMS = ("s", "s", "Станция-", "naïve ", "日", "100%d{0}", "L" * 150)


def jobs(tier, seed):
    k = 1 if tier == "quick" else 15
    for mode in sut.MODES:
        yield dict(kind="long", mode=mode, n=15000 if tier == "quick" else 70000, seed=seed % 7919)
    for mode in sut.MODES:
        for i in range(25 * k):
            yield dict(kind="stream", mode=mode, i=i, seed=seed)
            yield dict(kind="session", mode=mode, i=i, seed=seed)
        for i in range(10 * k):
            yield dict(kind="batch", mode=mode, i=i, seed=seed)
            yield dict(kind="abort", mode=mode, i=i, seed=seed)
        for kind in ("mutated", "supported", "msm", "base"):
            for i in range(8 * k):
                yield dict(kind=kind, mode=mode, i=i, seed=seed)


def events(log):
    """[(number, fate, detail)]; a failure may be explained by an entry before it"""
    out = []
    for line in log.splitlines():
        m = DONE.search(line)
        if m:
            t = TIME.search(line)
            out.append((int(m[1]), "done", (int(t[1]), int(t[2])) if t else None))
            continue
        m = FAILED.search(line)
        if m:
            out.append((int(m[1]), "failed", None))
            continue
        m = SKIPPED.search(line)
        if m:
            out.append((int(m[1]), "skipped", None))
    return out


def expected(frames, mode):
    out = []
    for f in frames:
        r = ref.reference(f)
        if r.kind == "short":
            out.append((None, "any", None))
            continue
        if not ref.supported(mode, r.num):
            out.append((r.num, "skipped", None))
            continue
        st = judge.status(r, mode)
        fate = {ref.OPEN: "any", ref.REJECT: "failed"}.get(st, "done")
        extra = None
        if fate == "done" and r.kind == "MSM":
            extra = len(r.msm.sats)
        out.append((r.num, fate, extra))
    return out


def fits(got, want, upto=None):
    """Position of the first difference or None."""
    i = 0
    for j, (num, fate, extra) in enumerate(want):
        if num is None:  # its number, if any, comes from its checksum
            if i < len(got) and (len(got) - i) > sum(w[0] is not None for w in want[j + 1:]):
                i += 1
            continue
        if i >= len(got):
            return None if upto else (j, None)
        g = got[i]
        if g[0] != num or (fate == "any" and g[1] == "skipped") or (fate != "any" and g[1] != fate):
            return j, g
        if extra is not None and g[2] is not None and g[2][1] != extra:
            return j, g
        i += 1
    return (len(want), got[i]) if i < len(got) else None


def frame_check(mon, log, path, label, detail, aborted=False):
    """Opening, progress, closing and verdict in order."""
    lines = log.splitlines()
    def idx(test):
        return [i for i, x in enumerate(lines) if test(x)]
    opened = idx(lambda x: "Opened file" in x)
    closed = idx(lambda x: "Closing file" in x)
    prog = idx(sut.PROGRESS.search)
    msgs = idx(lambda x: DONE.search(x) or FAILED.search(x) or SKIPPED.search(x))
    verdict = idx(lambda x: any(t in x for t in ("Finished without errors.", "Finished with errors.", "Decoding was terminated.")))
    ver = [i for i in verdict if not re.search(r"Msg \d+", lines[i])]
    if len(opened) != 1 or path not in lines[opened[0]]:
        mon.fail(f"{label}: opening of the source not logged once: {[lines[i] for i in opened]}", detail)
        return
    if len(closed) != 1 or path not in lines[closed[0]]:
        mon.fail(f"{label}: closing of the source not logged once: {[lines[i] for i in closed]}", detail)
        return
    if len(ver) != 1 or ver[0] < closed[0]:
        mon.fail(f"{label}: verdict entries {[lines[i] for i in ver]}", detail)
        return
    # the verdict agrees with what was reported before it
    counts = sut.PROGRESS.search(lines[prog[-1]]) if prog else None
    bad = any(int(counts[i]) for i in (3, 4, 5)) if counts else False
    want = "Decoding was terminated." if aborted else "Finished with errors." if bad else "Finished without errors."
    if want not in lines[ver[0]]:
        mon.fail(f"{label}: verdict {lines[ver[0]]!r} after {counts[0] if counts else 'no progress'!r}", detail)
        return
    if "without" in want:
        err = [x for x in lines if re.match(r"\w+:ERROR:", x)]
        mon.count("clean_logs")
        if err:
            mon.fail(f"{label}: a source without errors has error entries: {err[:2]}", detail)
            return
    if any(not opened[0] < i < closed[0] for i in msgs + prog):
        mon.fail(f"{label}: entries about messages outside opening and closing", detail)
        return
    pc = [float(sut.PROGRESS.search(lines[i])[1]) for i in prog]
    if any(a > b for a, b in zip(pc, pc[1:])) or any(not 0 < x <= 100 for x in pc):
        mon.fail(f"{label}: progress {pc[:10]}", detail)
    if not aborted and prog and (pc[-1] != 100 or any(i > prog[-1] for i in msgs)):
        mon.fail(f"{label}: the progress ends with {pc[-1]} % / before the last message", detail)


def check_log(mon, log, data, mode, path, label, aborted=False):
    detail = data.hex()[:100000]
    if log is None:
        mon.fail(f"{label}: no log", detail)
        return
    mon.count("logs")
    got = events(log)
    diffs = []
    for frames in options(data):
        want = expected(frames, mode)
        d = fits(got, want, aborted)
        if d is None:
            break
        diffs.append((d, want))
    else:
        (j, g), want = diffs[0]
        w = want[j] if j < len(want) else "nothing"
        mon.fail(f"{label}: message {j + 1} of {len(want)} ({w}) is logged as {g}", detail)
        return
    mon.count("entries_compared", len(got))
    mon.count("failed_entries", sum(x[1] == "failed" for x in got))
    mon.count("unsupported_entries", sum(x[1] == "skipped" for x in got))
    mon.case((mode, label, data) if got else None)
    frame_check(mon, log, path, label, detail, aborted)


def options(data):
    a, b = ref.scan(data).frames, ref.scan(data, True).frames
    return [a] if a == b else [a, b]


def logs(mode, datas, fault=None):
    """-> [(path, log)], exception"""
    with sut.scratch() as d:
        with open(os.path.join(d, "defaults.ini"), "w", encoding="utf-8") as f:
            f.write(sut.repo_defaults())
        ps = []
        for i, v in enumerate(datas):
            ps.append(os.path.join(d, f"{STEMS[len(v) % len(STEMS)]}{i}.rtcm3"))
            with open(ps[-1], "wb") as f:
                f.write(v)
        plan = faults.Plan()
        if fault:
            plan.read_limit = lambda p: fault if p == ps[0] else None
        with faults.inject(plan):
            info = sut.run_main(d, ["-o", mode] + ps)
        out = []
        for i, p in enumerate(ps):
            s = os.path.splitext(os.path.basename(p))[0]
            q = os.path.join(d, f"{s}-{mode}", f"{s}-log.txt")
            t = None
            if os.path.exists(q):
                with open(q, encoding="utf-8", errors="replace") as f:
                    t = f.read()
            out.append((p, t))
        return out, info.exc, faults.fired(plan)


def run(spec, mon):
    rng = rng_of(ID, spec)
    k, mode = spec["kind"], spec["mode"]
    if k == "batch":
        datas = [rng.choice((b"", gen.stream(rng, 20), b"".join(gen.session(rng, 5)), gen.noise(rng, 300)))
                 for _ in range(4)]
    elif k == "abort":
        data = b""
        while len(data) < 9000:
            data += gen.stream(rng, 15)
        datas = [data, gen.stream(rng, 10)]
    elif k == "stream":
        datas = [gen.stream(rng, rng.randrange(5, 150), good=rng.choice((.9, .5)), bad=rng.choice((.1, .5)), foreign=rng.choice((.1, .5)))]
    elif k == "long":
        fr = [f for f in (gen.good_frame(rng, n, time="valid") for n in (1005, 1007, 1013, 1019, 1071, 1081, 1230)) if len(f) < 250]
        fr += [f for f in (gen.bad_frame(rng), gen.foreign_frame(rng)) if len(f) < 250]
        datas = [b"".join(rng.choice(fr) for _ in range(spec["n"]))]
    elif k == "session":
        datas = [b"".join(gen.session(rng, rng.randrange(5, 40)))]
    else:
        datas = [content(spec, rng)]
    out, exc, fired = logs(mode, datas, rng.choice((4096, 8192)) if k == "abort" else None)
    if exc is not None:
        mon.fail(f"{mode}: main() raised {exc!r}", None)
        return
    if k == "abort" and fired:
        mon.count("aborted")
    for i, ((path, log), data) in enumerate(zip(out, datas)):
        check_log(mon, log, data, mode, path, f"{mode} {k}", aborted=bool(k == "abort" and i == 0 and fired))
    mon.sample({"mode": mode, "kind": k, "bytes": sum(map(len, datas)), "entries": len(events(out[-1][1] or ""))}, 1)
