"""C13: JSON documents."""
import json
import os

from .. import faults
from .common import *
from .c12 import rand_controls

ID = "C13"
RULE = ("random sequences and station sessions of all message types in JSON, JSON-B (and JARGO for EPH/BASE): every result returned by decode() is "
        "recorded when it is printed and the documents are compared with the recorded sequence, after a normal end, after "
        "stopping behind every k-th message, and after user/other exceptions raised between two messages of "
        "decode_rtcm_file and by the source's read; whole files through main() against the reference; non-trivial: runs "
        "with at least one record printed")
MINIMUM = {"documents_compared": 1500, "interruptions": 200, "conversions": 60, "records_compared": 8000, "sessions": 30}


REPEAT = 5


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for mode in ("JSON", "JSON-B", "JARGO"):
        for i in range(8 * k):
            yield dict(kind="api", mode=mode, i=i, seed=seed)
            yield dict(kind="stop", mode=mode, i=i, seed=seed)
            yield dict(kind="main", mode=mode, i=i, seed=seed)
        for i in range(2 * k):
            yield dict(kind="read", mode=mode, i=i, seed=seed)
        for i in range(6 * k):
            yield dict(kind="session", mode=mode, i=i, seed=seed)
        yield dict(kind="all", mode=mode, seed=seed)
        yield dict(kind="long", mode=mode, n=20000 if tier == "quick" else 60000, seed=seed % 7919)


def record(x, mode, c):
    """The element a decoded result has to become."""
    p = sut.plain(x)
    if isinstance(p, dict) and "atr" in p:
        hdr = p["hdr"]
        if mode == "JSON-B":
            t = hdr["time"] & 0x7FFFFFF if p["atr"]["gnss"] == "R" else hdr["time"]
            rec = {"sat": p["sat"], "sgn": p["sgn"]}
            aux = p["atr"]
        else:
            t = hdr["time"] + 86400000 * hdr["day"]
            rec = {"obs": p["obs"]}
            aux = p["aux"]
        if c.hdr:
            rec["hdr"] = hdr
        if c.aux:
            rec["aux"] = aux
        p = {t: rec}
    return json.loads(json.dumps(p))


def is_json(mode, num):
    return mode != "JARGO" or num not in ref.MSM_NUMBERS


def compare(mon, folder, want, mode, label, detail, prefix=False):
    """want: {number: [records]}"""
    files = {p: v for p, v in sut.tree(folder).items() if v is not None and not p.endswith((".obs", "-log.txt"))}
    paths = {ref.json_path(n): n for n in want}
    for p in files:
        if p not in paths:
            mon.fail(f"{mode} {label}: unexpected file {p}", detail)
    for p, num in paths.items():
        raw = files.get(p)
        mon.count("documents_compared")
        if raw is None:
            if not prefix:
                mon.fail(f"{mode} {label}: no file {p} for {len(want[num])} records", detail)
            continue
        try:
            doc = sut.load_json(raw)
        except ValueError as ex:
            mon.fail(f"{mode} {label}: {p} is not a valid document: {ex}", detail)
            continue
        if not isinstance(doc, list) or not doc or doc[0] != {"source_type": ref.source_type(num, mode == "JSON-B")}:
            mon.fail(f"{mode} {label}: {p} does not start with the source type", detail)
            continue
        exp = want[num]
        got = doc[1:]
        if prefix:
            exp = exp[:len(got)]
        mon.count("records_compared", len(got))
        if got != exp:
            i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            mon.fail(f"{mode} {label}: {p} holds {len(got)} records, {len(exp)} were printed; first difference at {i}", detail)


def sequence(rng, n, mode):
    nums = rng.choice((None, [rng.choice(ref.ALL_NUMBERS)], rng.sample(ref.ALL_NUMBERS, 4)))
    fr = []
    while len(fr) < n:
        x = rng.random()
        if fr and x < .15:
            fr.append(rng.choice(fr))  # repeated message
        elif x < .22:
            fr.append(gen.bad_frame(rng))
        else:
            fr.append(gen.good_frame(rng, mode_nums=nums, time=rng.choice(("any", "valid"))))
    return fr


def wrapper(inner, at, exc, where, log, mode, c):
    """A converter that forwards everything and raises at the chosen message."""
    base = sut.load()["conv"].ConverterInterface

    class Wrapped(base):
        def __init__(self):
            self.n = 0
            self.released = 0

        def hit(self, w):
            if where == w:
                self.n += 1
                if self.n == at:
                    raise exc

        def parse_bytes(self, buf):
            return inner.parse_bytes(buf)

        def decode(self, message):
            self.hit("decode")
            x = inner.decode(message)
            self.hit("decoded")
            return x

        def print(self, rtcm_data):
            num = number(rtcm_data)
            rec = record(rtcm_data, mode, c) if is_json(mode, num) else None
            inner.print(rtcm_data)
            if rec is not None:
                log.setdefault(num, []).append(rec)
            self.hit("printed")

        def release(self):
            self.released += 1
            inner.release()

        def get_statistics(self):
            self.hit("statistics")
            return inner.get_statistics()

    return Wrapped()


def number(x):
    return x.atr.msg_number if hasattr(x, "atr") else x.msgNum


def run(spec, mon):
    rng = rng_of(ID, spec)
    k, mode = spec["kind"], spec["mode"]
    if k == "api":
        for _ in range(4):
            c = rand_controls(rng)
            fr = sequence(rng, rng.randrange(1, 40), mode)
            for stop in {len(fr), rng.randrange(0, len(fr) + 1), 1, 0}:
                printed(mon, fr[:stop], mode, c, f"after {stop} messages")
    elif k == "session":
        for _ in range(2):
            fr = gen.session(rng, rng.randrange(8, 40))
            printed(mon, fr, mode, rand_controls(rng), "session")
            mon.count("sessions")
        session_job(mon, rng, (mode,), ("json.files", "json.doc", "json.key", "crash"))
    elif k == "long":
        kinds = [gen.good_frame(rng, n, time="valid") for n in (1005, 1013, 1019, 1077, 1085, 1230, 1071) for _ in (1, 2)]
        kinds = [f for f in kinds if len(f) < 300] or kinds
        printed(mon, [rng.choice(kinds) for _ in range(spec["n"])], mode, ref.Controls(pretty=False), "long run", "long")
    elif k == "all":
        for pretty in (True, False):
            fr = [gen.good_frame(rng, n) for n in ref.ALL_NUMBERS for _ in range(3)]
            rng.shuffle(fr)
            printed(mon, fr, mode, ref.Controls(pretty=pretty), "all types")
            first = [gen.good_frame(rng, n) for n in ref.ALL_NUMBERS]
            printed(mon, first + first[::-1] + first, mode, ref.Controls(pretty=pretty), "all types in turn")
    elif k == "stop":
        run_file = sut.load()["run"].decode_rtcm_file
        fr = sequence(rng, rng.randrange(2, 14), mode)
        data = b"".join(fr)
        c = rand_controls(rng)
        for exc in (KeyboardInterrupt(), RuntimeError("injected"), OSError(5, "injected"), FileNotFoundError(2, "injected")):
            for where in ("decode", "decoded", "printed", "statistics"):
                for at in sorted({1, rng.randrange(1, len(fr) + 1), len(fr)}):
                    with sut.scratch() as d:
                        out = os.path.join(d, "out")
                        os.mkdir(out)
                        src = os.path.join(d, "s.rtcm3")
                        with open(src, "wb") as f:
                            f.write(data)
                        want = {}
                        w = wrapper(sut.new_converter(mode, out, c), at, exc, where, want, mode, c)
                        run_file(src, w)
                        label = f"{type(exc).__name__} at {where} {at}"
                        if w.n >= at:
                            mon.count("interruptions")
                        mon.case((mode, label, data) if want else None)
                        compare(mon, out, want, mode, label, data.hex())
    elif k == "read":
        for exc in (KeyboardInterrupt(), OSError(5, "injected"), MemoryError()):
            data = b""
            while len(data) < 16000:
                data += b"".join(sequence(rng, 10, mode))
            limit = rng.choice((4096, 8192, 12288))
            c = rand_controls(rng)
            want = {}
            with converter(mode, c) as conv:
                for f in ref.scan(data).frames:
                    x = conv.decode(f)
                    if x is not None and is_json(mode, number(x)):
                        want.setdefault(number(x), []).append(record(x, mode, c))
            with sut.scratch() as d:
                with open(os.path.join(d, "defaults.ini"), "w", encoding="utf-8") as f:
                    f.write(c.ini())
                src = os.path.join(d, "s.rtcm3")
                with open(src, "wb") as f:
                    f.write(data)
                plan = faults.Plan()
                plan.read_exc = exc
                plan.read_limit = lambda p: limit if p == src else None
                with faults.inject(plan):
                    info = sut.run_main(d, ["-o", mode, src])
                if faults.fired(plan):
                    mon.count("interruptions")
                mon.case((mode, type(exc).__name__, limit, data))
                if info.exc is not None:
                    mon.fail(f"{mode}: {info.exc!r} escaped", data.hex())
                else:
                    compare(mon, os.path.join(d, f"s-{mode}"), want, mode, f"read failed at {limit}", data.hex(), prefix=True)
    else:
        for _ in range(4):
            c = rand_controls(rng)
            data = b"".join(sequence(rng, rng.randrange(1, 60), mode))
            convert_and_judge(mon, data, mode, c, aspects=("json.files", "json.doc", "json.key", "crash"), label="main")
            mon.case((mode, data))
            mon.sample({"mode": mode, "bytes": len(data), "controls": c.describe()}, 1)


def printed(mon, fr, mode, c, label, detail=None):
    want = {}
    with sut.scratch() as d:
        conv = sut.new_converter(mode, d, c)
        for f in fr:
            x = conv.decode(f)
            if x is None:
                continue
            num = number(x)
            if is_json(mode, num):
                want.setdefault(num, []).append(record(x, mode, c))
            conv.print(x)
        conv.release()
        if want:
            mon.count("interruptions", label.startswith("after"))
        mon.case((mode, c.describe(), b"".join(fr)) if want else None)
        compare(mon, d, want, mode, label, detail or b"".join(fr).hex())
