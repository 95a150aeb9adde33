"""C05: bit fields."""
import random

from .common import *

ID = "C05"
RULE = ("every (offset, width) of buffers with random, alternating and walking-bit content, signed, unsigned and "
        "reversed, plus requests outside the buffer or width range; oracle: shift and mask of the big integer; "
        "non-trivial: every request, distinct by (buffer, offset, width, function)")
MINIMUM = {"fields_extracted": 100000, "requests_refused": 2000, "reversals": 20000}
EXHAUSTIVE = "all offsets x widths 1..128 of each buffer of up to 24 bytes"


REPEAT = 5


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for i in range(60 * k):
        yield dict(kind="grid", i=i, seed=seed)
    for i in range(32):
        yield dict(kind="frame", i=i, seed=seed)
    for i in range(16 * k):
        yield dict(kind="big", i=i, seed=seed)
    for i in range(24 * k):
        yield dict(kind="refuse", i=i, seed=seed)
    for i in range(8 * k):
        yield dict(kind="rev", i=i, seed=seed)


def run(spec, mon):
    u = sut.load()["util"]
    B, Err = u.Bits, u.ExceptionBitsError
    rng = rng_of(ID, spec)
    k = spec["kind"]

    def one(buf, val, size, ofs, w):
        want = (val >> (size - ofs - w)) & ((1 << w) - 1)
        got = B.getbitu(buf, ofs, w)
        if got != want:
            mon.fail(f"unsigned {w} bits at {ofs}: {got!r}, expected {want}", buf.hex())
        sw = want - (1 << w) if want >> (w - 1) else want
        got = B.getbits(buf, ofs, w)
        if got != sw:
            mon.fail(f"signed {w} bits at {ofs}: {got!r}, expected {sw}", buf.hex())
        mon.counters["fields_extracted"] = mon.counters.get("fields_extracted", 0) + 2

    if k == "grid":
        n = rng.choice((1, 2, 3, 5, 9, 16, 17, 18, 24, 24))
        buf = rng.choice((rng.randbytes(n), b"\xff" * n, b"\x80" + bytes(n - 1), bytes(n - 1) + b"\x01",
                          b"\xaa" * n, b"\x55" * n, rng.randbytes(n), rng.randbytes(n)))
        val, size = int.from_bytes(buf, "big"), 8 * n
        for ofs in range(size):
            for w in range(1, min(128, size - ofs) + 1):
                one(buf, val, size, ofs, w)
                mon.case(None)
        mon.case(buf)
        mon.sigs.update(hash((buf, o, w)) & (2**63 - 1) for o in range(size) for w in range(1, min(128, size - o) + 1, 7))
        mon.sample({"buffer": buf.hex(), "requests": "all offsets and widths"})
    elif k == "big":
        n = rng.choice((1029, 500, 129))
        buf = rng.randbytes(n)
        val, size = int.from_bytes(buf, "big"), 8 * n
        for _ in range(3000):
            w = rng.randint(1, 128)
            ofs = rng.choice((rng.randrange(0, size - w + 1), size - w, rng.randrange(0, 200)))
            one(buf, val, size, ofs, w)
            mon.case((n, ofs, w))
    elif k == "frame":  # every offset of a buffer of maximum frame size, a slice of it per job
        n = 1029
        buf = random.Random(spec["seed"]).randbytes(n)
        val, size = int.from_bytes(buf, "big"), 8 * n
        for ofs in range(spec["i"], size, 32):
            part = val >> max(0, size - ofs - 128)
            for w in range(1, min(128, size - ofs) + 1, 1 if ofs % 3 == 0 else 5):
                want = (part >> (min(128, size - ofs) - w)) & ((1 << w) - 1)
                got = B.getbitu(buf, ofs, w)
                if got != want:
                    mon.fail(f"unsigned {w} bits at {ofs} of a frame: {got!r}, expected {want}", buf.hex())
                    return
            mon.case((n, ofs, "all"))
            mon.count("fields_extracted", 26)
    elif k == "refuse":
        n = (0, 1, 3, 16, 40, 127, 128, 129, 256, 1029, 2000, 17)[spec["i"] % 12]
        buf = rng.randbytes(n)
        size = 8 * n
        reqs = [(0, 0), (0, -1), (0, 129), (0, 200), (-1, 1), (-8, 8), (-1, 9), (size, 1), (size - 1, 2), (size + 8, 8),
                (size - 7, 8), (size - 127, 128), (0, 10**6), (10**6, 1), (3, 0), (size, 0), (-size, 8)]
        reqs += [(rng.randrange(-40, size + 200), rng.randrange(-20, 300)) for _ in range(500)]
        reqs += [(size - w + x, w) for w in range(1, 129) for x in (1, 2, 7, 8, 9) if size - w + x >= 0]
        for ofs, w in reqs:
            if ofs >= 0 and 1 <= w <= 128 and ofs + w <= size:
                continue
            for fn in (B.getbitu, B.getbits):
                mon.case((n, ofs, w, fn.__name__))
                try:
                    got = fn(buf, ofs, w)
                except Err:
                    mon.count("requests_refused")
                else:
                    mon.fail(f"{fn.__name__}({n} bytes, {ofs}, {w}) returned {got!r}", buf.hex())
        for _ in range(100):
            w, o = rng.randrange(1, 200), rng.randrange(0, 200)
            if w + o <= 128:
                continue
            for fn in (B.revbitu, B.revbits):
                mon.case((w, o, fn.__name__))
                try:
                    got = fn(rng.getrandbits(w + o), w, o)
                except Err:
                    mon.count("requests_refused")
                else:
                    mon.fail(f"{fn.__name__}(x, {w}, {o}) returned {got!r}")
    else:
        for w in range(1, 129):
            for o in {0, 1, 7, 8, 128 - w, rng.randrange(0, 129 - w)}:
                if w + o > 128:
                    continue
                for a in (rng.getrandbits(128), rng.getrandbits(w + o), 1 << o, 1 << (o + w - 1), (1 << 128) - 1):
                    s = (a >> o) & ((1 << w) - 1)
                    want = int(format(s, f"0{w}b")[::-1], 2)
                    got = B.revbitu(a, w, o)
                    if got != want:
                        mon.fail(f"revbitu({a:#x}, {w}, {o}) = {got!r}, expected {want}")
                    sw = want - (1 << w) if want >> (w - 1) else want
                    got = B.revbits(a, w, o)
                    if got != sw:
                        mon.fail(f"revbits({a:#x}, {w}, {o}) = {got!r}, expected {sw}")
                    if o == 0 and a == (a & ((1 << w) - 1)) and B.revbitu(a, w) != want:
                        mon.fail(f"revbitu({a:#x}, {w}) differs from offset 0")
                    mon.count("reversals", 2)
                    mon.case((a, w, o))
