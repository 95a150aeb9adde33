"""C29: the cost per message does not grow along the stream."""
import os
import time

from .common import *

ID = "C29"
RULE = ("equal blocks of traffic (tiny and mixed messages, near-identical and all different ones, malformed ones, garbage with "
        "and without false preambles) fed, decoded and printed again and again by one converter: the CPU time of late blocks is "
        "compared with that of early ones; and files of one and of eight such parts through main(); a growth is reported only "
        "when it is more than threefold in three measurements in a row; non-trivial: every block measured")
MINIMUM = {"blocks_measured": 500, "messages": 150000, "file_pairs": 8}
ASSUMPTIONS = ["CPU time of a thread measures its work within a factor of three"]


def jobs(tier, seed):
    k = 1 if tier == "quick" else 4
    for mode in sut.MODES:
        for what in ("tiny", "same", "mixed", "bad", "d3", "pre", "uniform", "frames", "foreign", "broken"):
            if mode not in ("JSON", "MARGO") and what in ("d3", "pre", "uniform", "frames"):
                continue
            yield dict(kind="stream", mode=mode, what=what, seed=seed, blocks=30 * k, cpu=600)
        for what in ("tiny", "uniform"):
            yield dict(kind="file", mode=mode, what=what, seed=seed, cpu=600)


def blob(rng, what, mode, size):
    out = []
    n = 0
    while n < size:
        if what in ("tiny", "same"):
            if mode == "MARGO" or rng.random() < .5:
                num = rng.choice((1071, 1081))
                sig = sorted(ref.SIGNALS[ref.MSM_NUMBERS[num][0]])[0]
                f = gen.msm_frame(rng, gen.msm(rng, num, sats=[rng.randint(1, 5)], sigs=[sig], time="valid", valid=1))
            else:
                f = ref.frame(gen.base_payload(rng, 1230, mask1230=0))
        elif what == "mixed":
            f = gen.good_frame(rng)
        elif what == "frames":
            f = b"".join(ref.frame(rng.randbytes(rng.choice((0, 0, 1)))) for _ in range(20)) * 10
        elif what == "foreign":
            f = ref.frame(((rng.choice((0, 1, 999, 1004, 1012, 1070, 4000, 4095)) << 4) + rng.randrange(16)).to_bytes(2, "big")) * 20
        elif what == "broken":
            f = ref.frame((rng.choice((1077, 1087, 1124)) << 4).to_bytes(2, "big") + rng.randbytes(2)) + b"a"
        elif what == "bad":
            f = gen.bad_frame(rng)
        else:
            f = gen.noise(rng, 2000, what)
        if what == "same":
            f *= 50
        out.append(f)
        n += len(f)
    return b"".join(out)


def stream(spec, mon, rng):
    mode, what = spec["mode"], spec["what"]
    nb = spec["blocks"]
    size = {"tiny": 12000, "same": 12000, "mixed": 30000, "bad": 30000, "d3": 40000, "pre": 40000, "uniform": 80000,
            "frames": 24000, "foreign": 24000, "broken": 12000}[what]
    verdicts = []
    for attempt in range(3):
        # every block has other content, except for "same"
        blobs = [blob(rng, what, mode, size) for _ in range(1 if what == "same" else 6)]
        times = []
        with converter(mode) as conv:
            for b in range(nb + 1):
                data = blobs[b % len(blobs)] if what == "same" or b < 6 else blob(rng, what, mode, size)
                t = time.thread_time()
                n = 0
                for i in range(0, len(data), 4096):
                    for m in conv.parse_bytes(data[i:i + 4096]):
                        x = conv.decode(m)
                        n += 1
                        if x is not None:
                            conv.print(x)
                t = time.thread_time() - t
                if b:
                    times.append(t / len(data))
                mon.count("blocks_measured")
                mon.count("messages", n)
                mon.case((mode, what, spec["seed"], attempt, b))
        q = max(3, nb // 6)
        first, last = sorted(times[:q])[q // 2], sorted(times[-q:])[q // 2]
        verdicts.append((first, last))
        if not (last > 3 * first and (last - first) * size > 0.005):
            break
    else:
        mon.fail(f"{mode}, '{what}': the CPU time per byte grows from {verdicts[-1][0] * 1e6:.2f} us to {verdicts[-1][1] * 1e6:.2f} us "
                 f"within {nb} blocks of {size} bytes", dict(spec))
    mon.sample({"mode": mode, "what": what, "us_per_byte_early": round(first * 1e6, 3), "late": round(last * 1e6, 3)}, 1)


def once(mode, path, d):
    t = time.thread_time()
    info = sut.run_main(d, ["-o", mode, path])
    return time.thread_time() - t, info.exc


def file(spec, mon, rng):
    mode, what = spec["mode"], spec["what"]
    part = 60000 if what == "tiny" else 200000
    for attempt in range(3):
        data = blob(rng, what, mode, 8 * part)
        with sut.scratch() as d:
            with open(os.path.join(d, "defaults.ini"), "w", encoding="utf-8") as f:
                f.write(sut.repo_defaults())
            t = []
            for i, b in enumerate((data[:part], data[-part:], data)):
                p = os.path.join(d, f"f{i}.rtcm3")
                with open(p, "wb") as f:
                    f.write(b)
                x, exc = once(mode, p, d)
                if exc is not None:
                    mon.fail(f"{mode}: main() raised {exc!r}", None)
                    return
                t.append(x)
        mon.count("file_pairs")
        mon.case((mode, what, "file", attempt, spec["seed"]))
        small = max(t[:2])
        if t[2] <= 24 * small + .3:
            break
    else:
        mon.fail(f"{mode}, '{what}': a file of {len(data)} bytes takes {t[2]:.2f} s CPU, an eighth of it {small:.2f} s", dict(spec))
    mon.sample({"mode": mode, "what": what, "part_s": round(small, 3), "whole_s": round(t[2], 3)}, 1)


def run(spec, mon):
    rng = rng_of(ID, spec)
    {"stream": stream, "file": file}[spec["kind"]](spec, mon, rng)
