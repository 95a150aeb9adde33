"""C03: statistics and verdict."""
import os

from .. import faults
from .common import *

ID = "C03"
RULE = ("random streams of well-formed, malformed and unsupported messages with garbage, in every mode: after every single "
        "feed/decode/print the five statistics are compared with a reference account (with and without blocked output "
        "folders); whole files through main(), where the last progress line and the verdict are compared; aborted "
        "conversions; non-trivial: histories with at least one supported message")
MINIMUM = {"statistics_compared": 10000, "conversions": 60, "aborts": 10, "print_errors_seen": 200}


REPEAT = 3


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for mode in sut.MODES:
        yield dict(kind="many", mode=mode, n=68000, seed=seed % 7919)
    for mode in sut.MODES:
        for i in range(10 * k):
            yield dict(kind="api", mode=mode, i=i, seed=seed)
        for i in range(8 * k):
            yield dict(kind="file", mode=mode, i=i, seed=seed)
        for i in range(3 * k):
            yield dict(kind="abort", mode=mode, i=i, seed=seed)
    for i in range(4):
        yield dict(kind="gaplen", i=i, seed=seed)
        yield dict(kind="lengths", i=i, seed=seed)
    for i in range(4 * k):
        yield dict(kind="rare", i=i, seed=seed)
    for what in ("gaps", "failures", "blocked"):
        yield dict(kind="counters", what=what, n=67000, seed=0)
    yield dict(kind="single", seed=seed)


FOLDERS = ("EPH", "BASE", "MSM7", "MSM4", "MSM1", "MSM2", "MSM3", "MSM5", "MSM6", "GPS", "GLN", "GAL", "SBS", "QZS", "BDS", "NAVIC")


def goes_to(r, mode, c):
    """Folders a decoded result is written to."""
    if mode in ("JSON", "JSON-B") or r.kind != "MSM":
        return {ref.json_path(r.num).split("/")[0]}
    rows = ref.margo_rows(r.msm, r.scaled, c)
    if all(x[5] for x in rows):
        return set() if not rows else None
    return {ref.GNSS_DIR[r.msm.gnss]}


def api(spec, mon, rng):
    mode = spec["mode"]
    c = ref.Controls(hca=rng.random() < .5, lock=rng.random() < .5)
    data = gen.stream(rng, rng.randrange(10, 80), good=rng.choice((.9, .5)), bad=rng.choice((.05, .4)), foreign=.2,
                      gaps=rng.choice((0, .2, .5)))
    blocked = set(rng.sample(FOLDERS, rng.choice((0, 0, 1, 5, 16))))
    s = ref.scan(data)
    with sut.scratch() as d:
        for b in blocked:
            with open(os.path.join(d, b), "w", encoding="utf-8") as f:
                f.write("in the way")
        conv = sut.new_converter(mode, d, c)
        att = dec = prn = perr = seen = 0
        pos = 0

        def compare(what):
            st = conv.get_statistics()
            got = (st.decoding_attempts, st.parsing_errors, st.decoding_errors, st.printing_attempts, st.printing_errors)
            want = (att, ref.parse_errors(s, seen), dec, prn, perr)
            mon.count("statistics_compared")
            if got != want:
                mon.fail(f"{mode} after {what}: (attempts, parsing, decoding errors, printing attempts, errors) = {got}, "
                         f"expected {want}", {"data": data.hex(), "blocked": sorted(blocked)})
                return False
            return True

        try:
            compare("start")
            for chunk in split_random(rng, data, rng.choice((20, 500, 5000))):
                msgs = conv.parse_bytes(chunk)
                pos += len(chunk)
                while seen < len(s.ends) and s.ends[seen] <= pos:
                    seen += 1
                if not compare("feed"):
                    return
                for m in msgs:
                    r = ref.reference(bytes(m))
                    if r.kind == "short":
                        continue
                    x = conv.decode(m)
                    st = judge.status(r, mode)
                    if ref.supported(mode, r.num):
                        att += 1
                        if st == ref.OPEN:
                            dec += x is None
                        else:
                            dec += st == ref.REJECT
                            mon.count("decode_errors_seen", st == ref.REJECT)
                    if not compare(f"decoding message {r.num}"):
                        return
                    if x is not None:
                        where = goes_to(r, mode, c) if st == ref.OK else None
                        e0 = conv.get_statistics().printing_errors
                        conv.print(x)
                        prn += 1
                        if where is None:
                            perr = conv.get_statistics().printing_errors
                            if perr - e0 not in (0, 1):
                                perr = e0
                        else:
                            perr += bool(where & blocked)
                            mon.count("print_errors_seen", bool(where & blocked))
                        if not compare(f"printing message {r.num}"):
                            return
        finally:
            conv.release()
    mon.count("parse_errors_seen", ref.parse_errors(s))
    mon.case(mode.encode() + data if att else None)
    mon.sample({"mode": mode, "frames": len(s.frames), "attempts": att, "decode_errors": dec, "print_errors": perr,
                "parse_errors": ref.parse_errors(s)}, 1)


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "api":
        for _ in range(4):
            api(spec, mon, rng)
    elif k == "file":
        mode = spec["mode"]
        for style in range(6):
            n = rng.randrange(1, 120)
            if style == 0:
                data = gen.stream(rng, n, good=1, bad=0, foreign=0.3, gaps=0)
            elif style == 1:
                data = gen.stream(rng, n, good=1, bad=0, foreign=0.3, gaps=0.2)
            elif style == 2:
                data = gen.stream(rng, n, good=1, bad=0.2, foreign=0.3, gaps=0)
            elif style == 3:
                data = gen.noise(rng, 50, "nod3") + gen.stream(rng, n, good=1, bad=0, gaps=0) + gen.noise(rng, 50, "nod3")
            elif style == 4:
                data = gen.stream(rng, n, good=.2, bad=1, foreign=.2, gaps=.5)
            else:
                data = rng.choice((b"", gen.noise(rng, 5000), gen.foreign_frame(rng) * 3, bytes(4096), bytes(8192)))
            conv, e = convert_and_judge(mon, data, mode, aspects=("stats", "verdict", "crash"), label=f"style {style}")
            v = sut.log_facts(conv.log)[1]
            mon.count(f"verdict_{v}")
            mon.case(mode.encode() + data if e is not None and e.attempts else None)
    elif k == "abort":
        abort(spec, mon, rng)
    elif k == "counters":  # each counter by itself far beyond what a file usually gives
        n, what = spec["n"], spec["what"]
        with sut.scratch() as d:
            with open(os.path.join(d, "BASE"), "w", encoding="utf-8") as f:
                f.write("in the way")
            conv = sut.new_converter("JSON", d)
            try:
                fr = {"gaps": ref.frame(b""), "blocked": gen.good_frame(rng, 1230)}.get(what, ref.frame(b"\x4c\xe0\x00"))
                for i in range(1, n + 1):
                    if what == "gaps":
                        conv.parse_bytes(b"\x00" + fr)
                        want = [0, i - 1, 0, 0, 0]
                    else:
                        x = conv.decode(fr)
                        if x is not None:
                            conv.print(x)
                        want = [i, 0, 0, i, i] if what == "blocked" else [i, 0, i, 0, 0]
                    st = conv.get_statistics()
                    got = [st.decoding_attempts, st.parsing_errors, st.decoding_errors, st.printing_attempts, st.printing_errors]
                    mon.count("statistics_compared")
                    if got != want:
                        mon.fail(f"JSON after {i} {what}: statistics {got}, expected {want}", what)
                        return
                mon.case((what, n))
            finally:
                conv.release()
    elif k == "gaplen":  # gaps of every short and many long lengths, with and without false preambles
        f = ref.frame(rng.randbytes(4))
        lens = sorted(set(range(1, 140)) | {x + d for x in (256, 512, 1024, 1029, 2048, 4096, 8192) for d in range(-7, 8)})
        for n in lens[spec["i"]::4]:
            for style in ("nod3", "d3low", "zero", "cut"):
                junk = (bytes(n) if style == "zero" else ref.frame(rng.randbytes(1000))[:n] + bytes(max(0, n - 1006)) if style == "cut"
                        else gen.noise(rng, n, style))
                data = f + junk + f + f + junk + f + bytes(1100)
                s = ref.scan(data)
                with converter("JSON") as conv:
                    got = []
                    for chunk in split_random(rng, data, rng.choice((7, 500, 20000))):
                        got += conv.parse_bytes(chunk)
                    e = conv.get_statistics().parsing_errors
                mon.count("statistics_compared")
                mon.case(data)
                if e != ref.parse_errors(s):
                    mon.fail(f"gaps of {n} bytes ({style}): {e} parsing errors, expected {ref.parse_errors(s)}", data.hex())
    elif k == "lengths":  # supported numbers with payloads of every length; results of one converter saved by another
        for n in range(2 + spec["i"], 1024, 4):
            mode = rng.choice(sut.MODES)
            num = rng.choice(sorted(x for x in ref.ALL_NUMBERS if ref.supported(mode, x)))
            b = bytearray(rng.randbytes(n))
            b[0], b[1] = num >> 4, (num & 15) << 4 | b[1] & 15
            f = ref.frame(bytes(b))
            with converter(mode) as conv:
                x = conv.decode(f)
                y = conv.decode(f)
                st = conv.get_statistics()
                got = (st.decoding_attempts, st.parsing_errors, st.decoding_errors)
            want = (2, 0, (x is None) + (y is None))
            mon.count("statistics_compared")
            mon.case(f)
            if got != want:
                mon.fail(f"{mode}: message {num} with {n} payload bytes decoded twice: statistics {got}, expected {want}", f.hex())
        with sut.scratch() as d, converter("JSON") as other:
            with open(os.path.join(d, "BASE"), "w", encoding="utf-8") as f:
                f.write("in the way")
            conv = sut.new_converter("JSON", d)
            try:
                for i in range(1, 6):
                    conv.print(other.decode(gen.good_frame(rng, 1005)))
                    st = conv.get_statistics()
                    mon.count("statistics_compared")
                    if (st.printing_attempts, st.printing_errors) != (i, i):
                        mon.fail(f"{i} results not saved: {st.printing_attempts} printing attempts, {st.printing_errors} errors", i)
            finally:
                conv.release()
    elif k == "rare":  # a single error in a long file; errors in files without supported messages
        fr = [gen.good_frame(rng, n) for n in (1005, 1019, 1013, 1230)]
        msm = [f for f in (gen.msm_frame(rng, gen.msm(rng, n, time="valid", in_range=True, values="small", valid=1)) for n in (1071, 1077))
               if len(f) < 300]
        bad = gen.bad_frame(rng, rng.choice((1071, 1077)))
        for mode in sut.MODES:
            pool = (msm or [gen.good_frame(rng, 1077)]) if mode == "MARGO" else fr + msm
            n = rng.choice((300, 1200, 2500, 5000))
            parts = [rng.choice(pool) for _ in range(n)]
            parts.insert(rng.randrange(1, n), rng.choice((b"\x00", bad)))
            data = b"".join(parts)
            convert_and_judge(mon, data, mode, aspects=("stats", "verdict", "crash"), label=f"one error in {n} messages")
            mon.case(mode.encode() + data)
            data = b"".join(gen.foreign_frame(rng) + rng.choice((b"\x00", b"", b"\xd3\x00"))
                            for _ in range(rng.choice((2, 3, 9)))) + gen.foreign_frame(rng)
            convert_and_judge(mon, data, mode, aspects=("stats", "verdict", "crash"), label="gaps between unsupported messages")
            mon.case(mode.encode() + data)
    elif k == "single":
        # one error of one kind
        ok = [gen.good_frame(rng, n) for n in (1005, 1019, 1077)]
        for mode in sut.MODES:
            for what, extra in (("none", b""), ("parsing", b"\x00"), ("decoding", gen.bad_frame(rng, 1077)),
                                ("before", b"\x01\x02")):
                data = extra + b"".join(ok) if what == "before" else ok[0] + extra + ok[1] + ok[2]
                convert_and_judge(mon, data, mode, aspects=("stats", "verdict", "crash"), label=f"one {what} error")
                mon.case(mode.encode() + data)
    else:
        fr = [gen.good_frame(rng, n) for n in (1005, 1007, 1013, 1019, 1071, 1230)] + [gen.bad_frame(rng), gen.foreign_frame(rng)]
        fr = [f for f in fr if len(f) < 200]
        data = b"".join(rng.choice(fr) + (b"" if rng.random() < .97 else b"\x00") for _ in range(spec["n"]))
        mode = spec["mode"]
        convert_and_judge(mon, data, mode, aspects=("stats", "verdict", "crash"), label="many messages", detail="many")
        mon.case(mode.encode() + data)


def abort(spec, mon, rng):
    mode = spec["mode"]
    for exc in (OSError(5, "injected read error"), KeyboardInterrupt(), MemoryError("injected"), ValueError("injected")):
        data = b""
        while len(data) < 14000:
            data += gen.stream(rng, 20, gaps=0, bad=0)
        plan = faults.Plan()
        limit = rng.choice((0, 4096, 8192, 12288))
        plan.read_exc = exc
        plan.read_limit = lambda p: limit if p.endswith("src.rtcm3") and "data" in p else None
        with faults.inject(plan):
            conv = convert_faulty(data, mode)
        if not faults.fired(plan):
            mon.count("fault_not_reached")
            continue
        mon.count("aborts")
        mon.case((mode, type(exc).__name__, limit, hexs(data)))
        if conv.exc is not None:
            mon.fail(f"{mode}: main() raised {conv.exc!r} when the source failed with {type(exc).__name__}", data.hex())
            continue
        v = sut.log_facts(conv.log)[1]
        if v != "terminated":
            mon.fail(f"{mode}: verdict {v} after reading was aborted by {type(exc).__name__} at byte {limit}", data.hex())


def convert_faulty(data, mode):
    # the harness itself reads the source back through the patched open; do it outside
    return _Convert(data, mode).conv


class _Convert:
    def __init__(self, data, mode):
        rv = sut.Conversion()
        rv.mode = mode
        with sut.scratch() as d:
            wd, sd = os.path.join(d, "cwd"), os.path.join(d, "data")
            os.mkdir(wd)
            os.mkdir(sd)
            with open(os.path.join(wd, "defaults.ini"), "w", encoding="utf-8") as f:
                f.write(sut.repo_defaults())
            src = os.path.join(sd, "src.rtcm3")
            with open(src, "wb") as f:
                f.write(data)
            info = sut.run_main(wd, ["-o", mode, src])
            rv.exc, rv.console = info.exc, info.console
            rv.outside = []
            full = sut.tree(os.path.join(sd, f"src-{mode}")) if os.path.isdir(os.path.join(sd, f"src-{mode}")) else {}
            log = full.pop("src-log.txt", None)
            rv.files = full
            rv.log = None if log is None else log.decode("utf-8", "replace")
        self.conv = rv
