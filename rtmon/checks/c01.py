"""C01: frame extraction."""
from .common import *

ID = "C01"
RULE = ("byte streams composed of intact, corrupted, truncated and nested frames, false preambles and noise, fed "
        "to parse_bytes (and, with numbered messages, converted as files); a case is non-trivial when it "
        "contains a frame or a false preamble; the oracle is an independent left-to-right frame scan")
MINIMUM = {"frames_delivered": 2000, "false_candidates": 500}
EXHAUSTIVE = "payload lengths 0..1023, second header byte 0..255 and all 4096 message numbers"


REPEAT = 2


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for i in range(4):
        yield dict(kind="again", i=i, seed=seed)
    for lo in range(0, 1024, 64):
        yield dict(kind="lengths", lo=lo, hi=lo + 64, seed=seed)
    for lo in range(0, 4096, 512):
        yield dict(kind="numbers", lo=lo, hi=lo + 512, seed=seed)
    yield dict(kind="second", seed=seed)
    for i in range(24 * k):
        yield dict(kind="mix", i=i, n=60, seed=seed)
    for i in range(8 * k):
        yield dict(kind="noise", i=i, n=40, seed=seed)
    for i in range(8 * k):
        yield dict(kind="file", i=i, n=10, seed=seed)
    yield dict(kind="long", n=70000, seed=seed)
    yield dict(kind="huge", seed=seed)
    for i in range(4):
        yield dict(kind="alone", i=i, seed=seed)
        yield dict(kind="prefixed", i=i, seed=seed)
    for i in range(8 * k):
        yield dict(kind="bulk", i=i, seed=seed)
    for i in range(4):
        yield dict(kind="lead", i=i, seed=seed)
        yield dict(kind="special", i=i, seed=seed)
    yield dict(kind="sizes", seed=seed)


def expect(mon, data, feeds, label):
    """Feed and compare with the scan."""
    s = ref.scan(data)
    got = []
    with converter("JSON") as conv:
        for f in feeds:
            got += list(conv.parse_bytes(f))
    mon.count("frames_delivered", len(got))
    cand = data.count(b"\xd3") - len(s.frames)
    mon.count("false_candidates", cand)
    mon.case(data if s.frames or cand else None)
    got = [bytes(g) for g in got]
    if got != s.frames:
        i = next((i for i, (a, b) in enumerate(zip(got, s.frames)) if a != b), min(len(got), len(s.frames)))
        what = ("missing" if i >= len(got) else "spurious" if i >= len(s.frames) else "different")
        mon.fail(f"{label}: {len(got)} frames delivered, expected {len(s.frames)}; frame {i} {what}",
                 data[:200000].hex())
    mon.sample({"stream": hexs(data), "bytes": len(data), "frames": len(s.frames)})
    return got


def corrupt(rng, frm):
    b = bytearray(frm)
    for _ in range(rng.choice((1, 1, 2, 3, 8))):
        i = rng.randrange(8 * len(b))
        b[i >> 3] ^= 0x80 >> (i & 7)
    return bytes(b)


def piece(rng, depth=0):
    k = rng.randrange(12)
    if k < 3:
        return ref.frame(rng.randbytes(rng.choice((0, 1, 2, 3, 7, 20, rng.randrange(1024)))))
    if k == 3:
        return gen.noise(rng, rng.choice((1, 2, 3, 5, 17, 300)))
    if k == 4:
        return corrupt(rng, ref.frame(rng.randbytes(rng.randrange(0, 200))))
    if k == 5:
        f = ref.frame(rng.randbytes(rng.randrange(0, 300)))
        return f[: rng.randrange(1, len(f))]
    if k == 6 and depth < 3:  # intact frames inside the payload of an intact frame
        inner = b"".join(piece(rng, depth + 1) for _ in range(3))[:1023]
        return ref.frame(inner)
    if k == 7 and depth < 3:  # intact frames inside a corrupted frame
        inner = b"".join(piece(rng, depth + 1) for _ in range(3))[:1023]
        f = bytearray(ref.frame(inner))
        f[-1] ^= 1
        return bytes(f)
    if k == 8:  # header announcing more than what follows
        return bytes((0xD3, rng.randrange(4), rng.randrange(256)))
    if k == 9:
        return bytes((0xD3, rng.randrange(256)))
    if k == 10:
        f = ref.frame(rng.randbytes(rng.randrange(0, 40)))
        return f * rng.randrange(2, 5)
    return ref.frame(rng.randbytes(rng.randrange(0, 60)), second=rng.randrange(256))


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "lengths":
        for n in range(spec["lo"], spec["hi"]):
            for pl in (rng.randbytes(n), b"\xd3" * n):
                a = ref.frame(pl)
                b = ref.frame(rng.randbytes(5))
                data = a + b + a + gen.noise(rng, rng.randrange(0, 20), "nod3") + a + b"\xd3" + b
                data += gen.noise(rng, 1100, "nod3")
                expect(mon, data, [data] if n % 2 else [a, b, data[len(a) + len(b):]], f"length {n}")
    elif k == "numbers":
        for num in range(spec["lo"], spec["hi"]):
            b = bytearray(rng.randbytes(rng.choice((2, 3, 30))))
            b[0], b[1] = num >> 4, (num & 15) << 4 | b[1] & 15
            f = ref.frame(bytes(b))
            expect(mon, f + f, [f + f], f"number {num}")
    elif k == "second":
        good = ref.frame(b"\x11\x22\x33")
        for x in range(256):
            for n in (0, 3, 40):
                f = ref.frame(rng.randbytes(n), second=x)
                data = good + f + good + bytes(1100)
                expect(mon, data, [data], f"second byte {x:#x}")
    elif k == "mix":
        for _ in range(spec["n"]):
            data = b"".join(piece(rng) for _ in range(rng.randrange(2, 25)))
            if rng.random() < 0.7:
                data += bytes(1100)
            feeds = split_random(rng, data, rng.choice((3, 50, 700, 10000)))
            expect(mon, data, feeds, "mixed stream")
    elif k == "noise":
        for _ in range(spec["n"]):
            data = gen.noise(rng, rng.choice((10, 300, 3000)))
            p = ref.frame(rng.randbytes(rng.randrange(0, 50)))
            i = rng.randrange(0, len(data))
            data = data[:i] + p + data[i:] + p + bytes(1100)
            expect(mon, data, split_random(rng, data, 400), "noise")
    elif k == "huge":  # megabytes in one feed
        for size, step in ((1_300_000, 1), (2_300_000, 7)):
            fr = [ref.frame(rng.randbytes(rng.randrange(900, 1024))) for _ in range(50)]
            data = b"".join(rng.choice(fr) + (b"\x00" if i % step else b"") for i in range(size // 960))
            expect(mon, data, [data], f"one feed of {len(data)} bytes")
    elif k == "alone":  # nothing at all follows the frame
        for n in range(spec["i"], 1024, 4):
            f = ref.frame(rng.randbytes(n))
            expect(mon, f, [f], f"a frame of {n} payload bytes alone")
            expect(mon, f + f, [f + f[:5], f[5:]], f"two frames of {n} payload bytes")
    elif k == "prefixed":  # a false header directly before every single frame
        fr = [ref.frame(rng.randbytes(rng.randrange(0, 40))) for _ in range(50)]
        for head in (b"\xd3", b"\xd3\x00", b"\xd3\x00\x00", b"\xd3\x01\xd3", b"\xd3\xd3\x00", b"\xd3\x03"):
            data = b"".join(head + rng.choice(fr) for _ in range(1500)) + bytes(1100)
            expect(mon, data, [data] if spec["i"] % 2 else split_random(rng, data, 900), f"every frame behind {head.hex()}")
    elif k == "bulk":  # many kilobytes in one feed, with short gaps
        for size in (300, 1100, 4100, 4200, 8300, 17000, 66000):
            for fill in (8, 60, 1000):
                data = b""
                while len(data) < size:
                    data += ref.frame(rng.randbytes(rng.randrange(fill)))
                    if rng.random() < .2:
                        data += rng.choice((b"\x00", b"\xd3", b"\xd3\x00", b"\xd3\xd3", b"\xff", b"ab", b"\x00\x00\x00", b"\xd3\xff\x00\x11"))
                    if rng.random() < .05 and fill > 8:
                        data += ref.with_crc(rng.randbytes(rng.randrange(3, fill)), rng.choice((0, 0xFFFFFF, 0xD30000, 0xD3, 1)))
                expect(mon, data, [data], "one big feed")
                i = rng.randrange(len(data))
                expect(mon, data, [data[:i], data[i:]], "two big feeds")
    elif k == "again":  # a frame seen intact comes again, damaged in one place only
        for n in [3, 20, 30, 40, 60, 100, 255, 400, 1023] + [rng.randrange(1024) for _ in range(20)]:
            f = ref.frame(rng.randbytes(n))
            data = f
            for _ in range(12):
                i = rng.randrange(3, len(f))
                data += f[:i] + bytes((f[i] ^ rng.randrange(1, 256),)) + f[i + 1:] + f
            data += bytes(1100)
            expect(mon, data, [data], f"damaged copies of a frame of {n} bytes")
    elif k == "lead":  # garbage of a given length, the feed cut inside the header that follows
        f = ref.frame(rng.randbytes(20))
        lens = {1 << j for j in range(14)} | {4096 * 2, 4096 * 3, 1029, 5000, 70000}
        for n in sorted(x + d for x in lens for d in range(-7, 4) if x + d >= 0)[spec["i"]::4]:
            data = gen.noise(rng, n, "nod3") + f + f
            for d in (0, 1, 2, 3):
                expect(mon, data, [data[:n + d], data[n + d:]], f"{n} bytes of garbage")
    elif k == "special":  # distinguished checksums, right and wrong
        for n in sorted({3, 4, 5, 255, 256, 512, 1020, 1021, 1022, 1023} | set(range(3 + spec["i"], 1024, 24))):
            data = b""
            for c in (0, 0xFFFFFF, 1, 0x800000, 0xD30000, 0xD3):
                f = ref.with_crc(rng.randbytes(n), c)
                data += f + f[:-3] + (c ^ rng.choice((1, 0xFFFFFF, 0x800000))).to_bytes(3, "big")
                data += ref.frame(rng.randbytes(n))[:-3] + c.to_bytes(3, "big")
            data += bytes(1100)
            expect(mon, data, [data], f"special checksums, length {n}")
    elif k == "long":
        fr = [ref.frame(rng.randbytes(rng.randrange(0, 12))) for _ in range(300)]
        data = b"".join(rng.choice(fr) for _ in range(spec["n"]))
        expect(mon, data, [data[i:i + 4096] for i in range(0, len(data), 4096)], "long stream")
    elif k == "file":
        for _ in range(spec["n"]):
            data, want = b"", []
            for i in range(rng.randrange(2, 60)):
                if rng.random() < 0.4:
                    data += piece_nobase(rng)
                t = f"message-{i:05d}-{'x' * rng.randrange(0, 100)}"
                data += numbered(t)
                want.append(t)
            tail = rng.choice((b"", b"\xd3", b"\xd3\x00", bytes(30), b"\xd3\x03\xff" + bytes(20)))
            judge_file(mon, data + tail, "file")
    else:  # file sizes around the block size
        for n in (1, 2, 3, 7):
            for d in range(-8, 9):
                data = b""
                i = 0
                while len(data) < n * 4096 + d - 60:
                    data += numbered(f"{i:06d}")
                    i += 1
                rest = n * 4096 + d - len(data) - len(numbered(""))
                data += numbered("#" * rest)
                assert len(data) == n * 4096 + d
                judge_file(mon, data, f"file of {n}*4096{d:+d} bytes")


def numbered(t: str) -> bytes:
    w = ref.BitWriter()
    for v, n in ((1029, 12), (7, 12), (0, 16), (0, 17), (len(t) & 127, 7), (len(t), 8)):
        w.put(v, n)
    for ch in t.encode():
        w.put(ch, 8)
    return ref.frame(w.bytes())


def piece_nobase(rng):
    """Garbage and foreign frames"""
    while True:
        p = piece(rng)
        if all(ref.msg_number(f) not in ref.ALL_NUMBERS for f in ref.scan(p, True).frames):
            return p


def judge_file(mon, data, label):
    conv = sut.convert(data, "JSON")
    mon.count("conversions")
    mon.case(data)
    if conv.exc is not None:
        mon.fail(f"{label}: main() raised {conv.exc!r}", data.hex())
        return
    raw = conv.files.get("BASE/TextStr-1029.json")
    try:
        got = [x["message"] for x in sut.load_json(raw)[1:]] if raw else []
    except (ValueError, KeyError, TypeError) as ex:
        mon.fail(f"{label}: unreadable product: {ex!r}", data.hex())
        return
    mon.count("frames_delivered", len(got))
    opts = []
    for flush in (False, True):
        fr = ref.scan(data, flush).frames
        opts.append([ref.reference(f).scaled["message"] for f in fr if ref.msg_number(f) == 1029])
    if not (got == opts[0] or got == opts[1]):
        mon.fail(f"{label}: {len(got)} messages saved, expected {len(opts[0])}; "
                 f"first difference at {next((i for i, (a, b) in enumerate(zip(got, opts[0])) if a != b), None)}",
                 data.hex())
