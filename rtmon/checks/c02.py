"""C02: chunking independence."""
from .common import *
from .c01 import piece, numbered, corrupt

ID = "C02"
RULE = ("streams of intact/corrupted/nested frames and garbage, each fed under many partitions (all two-way splits, "
        "all three-way splits of short streams, byte by byte, empty and huge chunks, chunks holding thousands of tiny messages, random); the monitor compares "
        "after every feed the messages delivered and the parsing-error count with what the bytes supplied so far "
        "determine; non-trivial: (stream, partition) with more than one non-empty chunk")
MINIMUM = {"feeds": 20000, "frames_delivered": 5000, "parse_errors_seen": 100, "dense_frames": 5000}


REPEAT = 5


def jobs(tier, seed):
    k = 1 if tier == "quick" else 10
    for i in range(16 * k):
        yield dict(kind="two", i=i, seed=seed)
    for i in range(8 * k):
        yield dict(kind="three", i=i, seed=seed)
    for i in range(16 * k):
        yield dict(kind="random", i=i, n=25, seed=seed)
    for i in range(8 * k):
        yield dict(kind="bytes", i=i, n=12, seed=seed)
    for i in range(8):
        yield dict(kind="blocks", i=i, lo=i * (6 if tier == "quick" else 40),
                   hi=(i + 1) * (6 if tier == "quick" else 40), seed=seed)
    for i in range(8 * k):
        yield dict(kind="files", i=i, n=3, seed=seed)
    for i in range(4):
        yield dict(kind="alone", i=i, seed=seed)
    for i in range(8):
        yield dict(kind="lead", i=i, k=k, seed=seed)
    for i in range(8 * k):
        yield dict(kind="dense", i=i, n=rng_of(ID, dict(i=i, seed=seed)).choice((700, 1500, 3000, 6000, 12000)), seed=seed)


def feed(mon, data, chunks, label, s=None, sig=True):
    s = s or ref.scan(data)
    pos = done = errs = 0
    with converter("JSON") as conv:
        for c in chunks:
            got = [bytes(x) for x in conv.parse_bytes(c)]
            pos += len(c)
            want = []
            while done + len(want) < len(s.frames) and s.ends[done + len(want)] <= pos:
                want.append(s.frames[done + len(want)])
            mon.count("feeds")
            if got != want:
                mon.fail(f"{label}: feed ending at byte {pos} of {len(data)} delivered {len(got)} messages, "
                         f"expected {len(want)}" + (" (other content)" if len(got) == len(want) else ""),
                         {"data": data.hex()[:100000], "chunks": [len(x) for x in chunks][:5000]})
                return
            errs += sum(s.gaps[done:done + len(want)])
            done += len(want)
            n = conv.get_statistics().parsing_errors
            if n != errs:
                mon.fail(f"{label}: {n} parsing errors after byte {pos}, expected {errs}",
                         {"data": data.hex()[:100000], "chunks": [len(x) for x in chunks][:5000]})
                return
    mon.count("frames_delivered", done)
    mon.count("parse_errors_seen", errs)
    if sig:
        mon.case(data + repr([len(c) for c in chunks]).encode() if len(chunks) > 1 else None)
    else:
        mon.case()


def short(rng):
    """A short stream with structure"""
    out = b""
    for _ in range(rng.randrange(2, 6)):
        k = rng.randrange(6)
        if k < 3:
            out += ref.frame(rng.randbytes(rng.randrange(0, 9)))
        elif k == 3:
            out += corrupt(rng, ref.frame(rng.randbytes(rng.randrange(0, 9))))
        elif k == 4:
            out += gen.noise(rng, rng.randrange(1, 6), rng.choice(("d3", "nod3", "pre", "d3low")))
        else:
            f = ref.frame(rng.randbytes(rng.randrange(3)))
            out += ref.frame(f + rng.randbytes(3))[: -rng.randrange(1, 4)]
    return out + ref.frame(b"\x12\x34")


def dense(rng, n):
    """Very many tiny frames, a few of them damaged."""
    pool = [ref.frame(rng.randbytes(rng.choice((0, 0, 0, 1, 2, 5)))) for _ in range(40)]
    out = [rng.choice(pool) for _ in range(n)]
    for _ in range(rng.choice((0, 3, n // 10))):
        i = rng.randrange(n - 1)
        out[i] = rng.choice((b"\xd3", b"\xd3\x00", b"\x00", corrupt(rng, out[i])))
    return b"".join(out)


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "dense":
        data = dense(rng, spec["n"])
        s = ref.scan(data)
        i = rng.randrange(len(data))
        feed(mon, data, [data], "thousands of messages in one chunk", s)
        feed(mon, data, [data[:i], data[i:]], "thousands of messages in two chunks", s)
        feed(mon, data, [data[i:i + 4096] for i in range(0, len(data), 4096)], "blocks of tiny messages", s)
        data = b"".join(numbered(f"{i}") for i in range(spec["n"] // 4)) + bytes(1100)
        convert_and_judge(mon, data, "JSON", aspects=("json", "stats", "crash"), label="file of short messages")
        mon.count("dense_frames", len(s.frames))
        return
    if k == "alone":  # each possible length, with nothing behind it
        for n in range(spec["i"], 1024, 4):
            f = ref.frame(rng.randbytes(n))
            i = rng.randrange(1, len(f))
            for cuts in ([f], [f[:-1], f[-1:]], [f[:i], f[i:]], [f + f[:3], f[3:]]):
                data = b"".join(cuts)
                feed(mon, data, cuts, f"payload of {n} bytes", ref.scan(data))
        return
    if k == "lead":  # a message preceded by n bytes of garbage, cut around its first bytes
        f = ref.frame(rng.randbytes(20))
        lens = {1 << j for j in range(14)} | {4096 * 2, 4096 * 3, 1029, 5000, 10000, 70000}
        lens = {x + d for x in lens for d in range(-7, 4)} | {rng.randrange(9000) for _ in range(30 * spec["k"])}
        for n in sorted(x for x in lens if x >= 0)[spec["i"]::8]:
            for junk in (bytes(n), gen.noise(rng, n, "nod3")):
                data = junk + f + f
                s = ref.scan(data)
                for d in (0, 1, 2, 3, 6):
                    feed(mon, data, [data[:n + d], data[n + d:]], f"{n} bytes of garbage, cut {d} bytes into the message", s)
            data = f + junk + f
            feed(mon, data, [data[:len(f) + n + 1], data[len(f) + n + 1:]], f"gap of {n} bytes", ref.scan(data))
            data = f + junk + f[:2] + f  # after a message: the gap counts
            feed(mon, data, [data[:len(f) + n + 1], data[len(f) + n + 1:]], f"gap of {n} bytes", ref.scan(data))
        return
    if k == "two":
        for _ in range(8):
            data = short(rng)
            s = ref.scan(data)
            mon.sample({"stream": data.hex(), "frames": len(s.frames)})
            for i in range(len(data) + 1):
                feed(mon, data, [data[:i], data[i:]], "two chunks", s)
        big = b"".join(piece(rng) for _ in range(6)) + bytes(1100)
        s = ref.scan(big)
        for i in rng.sample(range(len(big)), min(60, len(big))):
            feed(mon, big, [big[:i], big[i:]], "two chunks", s)
    elif k == "three":
        data = short(rng)[:90]
        s = ref.scan(data)
        for i in range(0, len(data) + 1):
            for j in range(i, len(data) + 1, 1 + len(data) // 40):
                feed(mon, data, [data[:i], data[i:j], data[j:]], "three chunks", s)
    elif k == "random":
        for _ in range(spec["n"]):
            data = b"".join(piece(rng) for _ in range(rng.randrange(2, 20)))
            if rng.random() < 0.6:
                data += bytes(1100)
            s = ref.scan(data)
            for mean in (1.5, 6, 100, 1500):
                feed(mon, data, split_random(rng, data, mean), "random chunks", s)
            feed(mon, data, [b"", data, b"", b""], "one chunk", s)
    elif k == "bytes":
        for _ in range(spec["n"]):
            data = b"".join(piece(rng) for _ in range(rng.randrange(2, 8)))[:3000] + bytes(rng.choice((0, 1100)))
            s = ref.scan(data)
            for step in (1, 2, 3, 5, 7):
                feed(mon, data, [data[i:i + step] for i in range(0, len(data), step)], f"{step} byte(s) at a time", s)
    elif k == "files":
        for _ in range(spec["n"]):
            data = b"".join(piece(rng) + numbered(f"n{i}") for i in range(rng.randrange(30, 90)))
            conv, _ = convert_and_judge(mon, data, "JSON", aspects=("json", "stats", "crash"), label="file")
            mon.case(data)
    else:
        base = b""
        i = 0
        while len(base) < 9000:
            base += numbered(f"block-{i:04d}" + "y" * rng.randrange(0, 90))
            if rng.random() < 0.2:
                base += b"\xd3\x00" + gen.noise(rng, 3, "nod3")
            i += 1
        base += bytes(1100)
        first = None
        for shift in range(spec["lo"], spec["hi"]):
            shift = shift * 3 if shift % 2 else 4096 - shift
            conv = sut.convert(b"\x00" * shift + base, "JSON")
            mon.count("conversions")
            mon.case((shift, hexs(base)))
            if conv.exc is not None:
                mon.fail(f"shift {shift}: main() raised {conv.exc!r}")
                return
            facts = sut.log_facts(conv.log)
            now = (conv.files, facts[0][1:] if facts[0] else None, facts[1])
            if first is None:
                first = now
                s = ref.scan(base)
                raw = conv.files.get("BASE/TextStr-1029.json")
                n = len(sut.load_json(raw)) - 1 if raw else 0
                if n != len(s.frames):
                    mon.fail(f"shift {shift}: {n} records, expected {len(s.frames)}", base.hex())
            elif now != first:
                mon.fail(f"products change when {shift} bytes of garbage precede the first message "
                         f"(block boundary effect)", base.hex())
                return
