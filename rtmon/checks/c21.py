"""C21: bounded memory and open files."""
import gc
import io
import os
import subprocess
import sys
import tracemalloc
import types

from .common import *
from .c12 import rand_controls

ID = "C21"
RULE = ("streams of 0.3 to several MB (garbage with and without preambles, false preambles announcing long frames, valid and "
        "malformed traffic, mixtures) fed in chunks of 1 byte to 256 KiB: after every feed the bytes held by all objects "
        "reachable from the converter are measured (and every bytes object's length), and across phases of the stream the "
        "number of reachable objects, and the memory traced for the whole process while messages are fed, decoded and "
        "printed in equal phases, and the peak memory of whole processes converting short and long sources; open files below the product folder are counted during and after conversions; "
        "non-trivial: feeds after the first 64 KiB")
MINIMUM = {"feeds_measured": 1500, "bytes_fed": 8000000, "process_phases": 20, "peaks": 32, "fd_samples": 300, "conversions": 16}
SLACK = 64 * 1024
BUFFERS = 8 * 1024  # above one incomplete message
PHASE = 12 * 1024  # per phase of many thousand messages


def jobs(tier, seed):
    k = 1 if tier == "quick" else 6
    for mode in sut.MODES:
        for what in ("tiny", "mixed", "garbage", "repeat", "foreign", "broken"):
            yield dict(kind="process", mode=mode, what=what, seed=seed, n=10000 if tier == "quick" else 40000)
        for what in ("noise", "foreign", "tiny", "broken"):
            yield dict(kind="peak", mode=mode, what=what, seed=seed)
    for kind in ("nod3", "uniform", "d3", "pre", "zero", "text", "announce", "valid", "bad", "mix", "foreign", "d3only"):
        for chunk in (1, 61, 4096, 262144):
            for i in range(k):
                yield dict(kind=kind, chunk=chunk, i=i, seed=seed, size=(40000 if chunk == 1 else 400000) * (1 if tier == "quick" else 5))
    for mode in sut.MODES:
        for i in range(2 * k):
            yield dict(kind="files", mode=mode, i=i, seed=seed)
            yield dict(kind="main", mode=mode, i=i, seed=seed)


ATOMIC = (str, bytes, bytearray, int, float, complex, bool, type(None))
SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.CodeType, types.FrameType,
        types.MethodDescriptorType, types.WrapperDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType)


def reach(root):
    """(bytes in strings and buffers, bytes in buffers alone, number of objects) reachable from root."""
    seen = {id(root)}
    stack = [root]
    size = big = n = 0
    while stack:
        x = stack.pop()
        n += 1
        if isinstance(x, (bytes, bytearray, memoryview, str)):
            ln = len(x)
            size += ln
            if not isinstance(x, str):
                big += ln
            continue
        if isinstance(x, int):
            size += sys.getsizeof(x)
            continue
        nxt = []
        if isinstance(x, types.MethodType):
            nxt = [x.__self__]
        elif isinstance(x, types.FunctionType):
            nxt = [c.cell_contents for c in (x.__closure__ or ()) if _filled(c)]
        elif isinstance(x, SKIP):
            continue
        else:
            nxt = gc.get_referents(x)
        for y in nxt:
            if id(y) not in seen and not isinstance(y, (type, types.ModuleType)):
                seen.add(id(y))
                stack.append(y)
    return size, big, n


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def material(rng, kind, size):
    out = bytearray()
    while len(out) < size:
        if kind in ("nod3", "uniform", "d3", "pre", "zero", "text"):
            out += gen.noise(rng, 20000, kind)
        elif kind == "announce":
            out += bytes((0xD3, 3, 255)) + gen.noise(rng, rng.choice((1, 500, 1100)), "nod3")
        elif kind == "d3only":
            out += b"\xd3" * 5000
        elif kind == "valid":
            out += b"".join(gen.good_frame(rng) for _ in range(20)) * 4
        elif kind == "bad":
            out += b"".join(gen.bad_frame(rng) for _ in range(10)) * 8
        elif kind == "foreign":
            out += b"".join(gen.foreign_frame(rng) for _ in range(10))
        else:
            out += rng.choice((gen.noise(rng, 3000), gen.good_frame(rng) * 5, gen.bad_frame(rng) * 3,
                               bytes((0xD3, 3, 255)) * 10, bytes(5000)))
    return bytes(out[:size])


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "process":
        return process(spec, mon, rng)
    if k == "peak":
        return peak(spec, mon, rng)
    if k in ("files", "main"):
        return files(spec, mon, rng)
    data = material(rng, k, spec["size"])
    ch = spec["chunk"]
    mode = rng.choice(sut.MODES)
    with converter(mode) as conv:
        s0, b0, n0 = reach(conv)
        step = max(1, (len(data) // ch) // 60)
        worst = (0, 0)
        fed = 0
        for i in range(0, len(data), ch):
            msgs = conv.parse_bytes(data[i:i + ch])
            fed += len(data[i:i + ch])
            if ch >= 4096 and msgs:
                for m in msgs[:40]:
                    x = conv.decode(m)
                    del x
            del msgs
            if (i // ch) % step == 0 or i + ch >= len(data):
                s, big, n = reach(conv)
                worst = max(worst, (s, i))
                mon.count("feeds_measured")
                mon.case((k, ch, mode, i, spec["seed"], spec["i"]) if fed > 65536 or ch == 1 else None)
                if s - s0 > SLACK or n - n0 > 20000:
                    mon.fail(f"{mode}: {s - s0} bytes in {n - n0} more objects are kept after {fed} bytes of '{k}' fed in chunks "
                             f"of {ch} ({big} in buffers)", dict(spec))
                    return
                if big - b0 > 1029 + BUFFERS:
                    mon.fail(f"{mode}: {big - b0} bytes of input are kept after {fed} bytes of '{k}' in chunks of {ch}", dict(spec))
                    return
        mon.count("bytes_fed", len(data))
        mon.sample({"kind": k, "chunk": ch, "mode": mode, "fed": fed, "start_bytes": s0, "worst_bytes": worst[0]}, 1)


def open_below(d):
    n = []
    d = os.path.realpath(d) + os.sep
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if p.startswith(d):
            n.append(p[len(d):])
    return n


def files(spec, mon, rng):
    mode = spec["mode"]
    c = rand_controls(rng)
    if spec["kind"] == "files":
        with sut.scratch() as d:
            conv = sut.new_converter(mode, d, c)
            fr = [gen.good_frame(rng, time="valid") for _ in range(120)]
            for i in range(400):
                x = conv.decode(rng.choice(fr))
                if x is not None:
                    conv.print(x)
                if i % 8 == 0:
                    o = open_below(d)
                    have = [p for p, v in sut.tree(d).items() if v is not None]
                    mon.count("fd_samples")
                    mon.case((mode, i, spec["i"], spec["seed"]))
                    if len(o) > len(have):
                        mon.fail(f"{mode}: {len(o)} open files for {len(have)} products", sorted(o)[:5])
                        break
            conv.release()
            gc.collect()
            o = open_below(d)
            if o:
                mon.fail(f"{mode}: still open after release: {o[:4]}", None)
        return
    data = gen.stream(rng, 150)
    with sut.scratch() as d:
        with open(os.path.join(d, "defaults.ini"), "w", encoding="utf-8") as f:
            f.write(c.ini())
        ps = []
        for i in range(3):
            p = os.path.join(d, f"s{i}.rtcm3")
            with open(p, "wb") as f:
                f.write(data)
            ps.append(p)
        gc.disable()
        try:
            info = sut.run_main(d, ["-o", mode] + ps)
            o = open_below(d)
        finally:
            gc.enable()
        mon.count("conversions", 3)
        mon.case((mode, data))
        if info.exc is not None:
            mon.fail(f"{mode}: main() raised {info.exc!r}", data.hex())
        if o:
            mon.fail(f"{mode}: files still open after the run: {o[:4]}", data.hex())


def process(spec, mon, rng):
    """Memory of the whole process over equal phases of a run."""
    mode, what, n = spec["mode"], spec["what"], spec["n"]
    msm = rng.sample(sorted(ref.MSM_NUMBERS), 3)
    nums = msm + ([] if mode == "MARGO" else rng.sample(sorted(ref.EPH_NUMBERS), 2) + [1005, 1029])

    def tiny():
        num = rng.choice((1230, 1071, 1081)) if mode != "MARGO" else rng.choice((1071, 1081))
        if num == 1230:
            return ref.frame(gen.base_payload(rng, 1230, mask1230=0))
        return small(num)

    def small(num):
        sig = sorted(ref.SIGNALS[ref.MSM_NUMBERS[num][0]])[0]
        return gen.msm_frame(rng, gen.msm(rng, num, sats=[rng.randint(1, 5)], sigs=[sig], time="valid", valid=1))

    def phase():
        if what == "tiny":
            return b"".join(tiny() for _ in range(n))
        if what == "mixed":
            out = []
            for _ in range(n // 5):
                num = rng.choice(nums)
                out.append(gen.bad_frame(rng, num) if rng.random() < .2 else small(num) if num in ref.MSM_NUMBERS else
                           gen.good_frame(rng, num))
            return b"".join(out)
        if what == "repeat":
            return tiny() * n
        if what == "foreign":
            return b"".join(ref.frame(((rng.choice((0, 1, 999, 1004, 1012, 1070, 4000, 4095)) << 4) + rng.randrange(16)).to_bytes(2, "big")
                                      + rng.randbytes(rng.randrange(2))) for _ in range(2 * n))
        if what == "broken":
            return b"".join(ref.frame((rng.choice(nums) << 4).to_bytes(2, "big") + rng.randbytes(rng.randrange(3)))
                            + rng.choice((b"", b"", b"\xd3\x00", b"ab")) for _ in range(n))
        return b"".join(gen.noise(rng, 200) for _ in range(n // 4))

    blobs = [phase() for _ in range(3)]
    with sut.scratch() as d:
        conv = sut.new_converter(mode, d)

        def feed(blob):
            for i in range(0, len(blob), 4096):
                for m in conv.parse_bytes(blob[i:i + 4096]):
                    x = conv.decode(m)
                    if x is not None:
                        conv.print(x)
            x = m = None
            gc.collect()
            for o in gc.get_objects():  # pending text of open files is no growth
                if isinstance(o, io.TextIOWrapper) and not o.closed and str(o.name).startswith(d):
                    o.flush()

        feed(blobs[0])
        tracemalloc.start()
        try:
            feed(blobs[1])
            a = tracemalloc.get_traced_memory()[0]
            feed(blobs[2])
            b = tracemalloc.get_traced_memory()[0]
        finally:
            tracemalloc.stop()
        n_open = len(open_below(d))
        conv.release()
    mon.count("process_phases")
    mon.count("bytes_fed", sum(map(len, blobs)))
    mon.case((mode, what, "process"))
    mon.sample({"mode": mode, "what": what, "bytes_per_phase": len(blobs[2]), "growth": b - a, "open_files": n_open}, 1)
    # what was allocated before tracing and replaced during it shows up once in 'a'
    if b - a > PHASE:
        mon.fail(f"{mode}: memory grows by {b - a} bytes over {len(blobs[2])} bytes of '{what}' (and by {a} over as much before)",
                 dict(spec))


PEAK = """
import sys, tracemalloc
sys.path.insert(0, sys.argv[1])
import run_conversion, logging, encodings.idna
out = sys.argv[2]
sys.argv = ["run_conversion.py"] + sys.argv[3:]
tracemalloc.start()
run_conversion.main()
p = tracemalloc.get_traced_memory()[1]
open(out, "w").write(str(p))
"""


def peak(spec, mon, rng):
    """Peak memory of a whole process for a short and for a long source."""
    mode, what = spec["mode"], spec["what"]
    few, many, limit = {"noise": (100, 800, 6 << 20), "foreign": (25000, 50000, 96 << 10), "tiny": (5600, 10600, 128 << 10),
                        "broken": (18000, 32000, 96 << 10)}[what]

    def one():
        if what == "noise":
            return gen.noise(rng, 20000, "nod3")
        if what == "foreign":
            return ref.frame((rng.choice((0, 1, 999, 1004, 1012, 1070, 4000, 4095)) << 4).to_bytes(2, "big"))
        if what == "broken":
            return ref.frame((1077 << 4).to_bytes(2, "big") + rng.randbytes(1)) + b"ab"
        return gen.msm_frame(rng, gen.msm(rng, 1071, sats=[3], sigs=[2], time="valid", valid=1))

    pool = [one() for _ in range(40 if what != "noise" else 4)]
    p = []
    with sut.scratch() as d:
        with open(os.path.join(d, "defaults.ini"), "w", encoding="utf-8") as f:
            f.write(sut.repo_defaults())
        for n in (few, many):
            src = os.path.join(d, f"n{n:08d}.rtcm3")
            with open(src, "wb") as f:
                f.write(b"".join(rng.choice(pool) for _ in range(n)))
            r = subprocess.run([sys.executable, "-c", PEAK, sut.REPO, os.path.join(d, "peak"), "-o", mode, src], cwd=d,
                               env={"PATH": os.environ.get("PATH", ""), "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8"},
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
            if r.returncode:
                mon.fail(f"{mode}: the conversion of {n} x '{what}' ended with exit status {r.returncode}",
                         r.stderr.decode("utf-8", "replace")[-2000:])
                return
            with open(os.path.join(d, "peak"), encoding="utf-8") as f:
                p.append(int(f.read()))
    mon.count("peaks", 2)
    mon.case((mode, what, "peak", spec["seed"]))
    mon.sample({"mode": mode, "what": what, "messages": [few, many], "peak_bytes": p}, 1)
    if p[1] - p[0] > limit:
        mon.fail(f"{mode}: converting {many} x '{what}' instead of {few} needs {p[1] - p[0]} bytes more memory", dict(spec))
