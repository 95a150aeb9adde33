"""C12: robustness of a conversion."""
import os

from .common import *
from .c01 import numbered

ID = "C12"
RULE = ("files of random bytes, mutated recordings, frames of any number and length with random, zero or all-one payloads, "
        "MSM frames with random masks, in every mode and random configuration, converted by main(); the monitor requires "
        "a final verdict that is not an abort, an end marker message in the products, parseable products, no escaping "
        "exception and termination within a CPU budget; non-trivial: files with at least one frame with a valid CRC")
MINIMUM = {"conversions": 150, "frames_in_files": 5000, "end_markers_seen": 150}


REPEAT = 6


def jobs(tier, seed):
    k = 1 if tier == "quick" else 15
    for mode in sut.MODES:
        for i in range(6 * k):
            for kind in ("random", "frames", "supported", "mutated", "msm", "base"):
                yield dict(kind=kind, mode=mode, i=i, seed=seed)
    for mode in sut.MODES:
        for i in range(k):
            yield dict(kind="tiny", mode=mode, i=i, seed=seed)
    for i in range(4 * k):
        yield dict(kind="numbers", i=i, n=4 * k, seed=seed)


def rand_controls(rng):
    lit = {i: rng.choice((rng.randrange(-7, 7), 0, -7, 6, 13)) for i in range(1, 25)}
    return ref.Controls(hca=rng.random() < .5, lock=rng.random() < .5, utc=rng.choice((18, 0, 17, 37)), lit=lit,
                        hdr=rng.random() < .5, aux=rng.random() < .5, pretty=rng.random() < .5)


def payload(rng, num, n):
    n = max(2, n)
    b = bytearray(rng.choice((rng.randbytes(n), bytes(n), b"\xff" * n, gen.noise(rng, n))))
    b[0], b[1] = num >> 4, (num & 15) << 4 | b[1] & 15
    return bytes(b)


def content(spec, rng):
    k = spec["kind"]
    if k == "random":
        return gen.noise(rng, rng.choice((0, 1, 2, 5, 6, 100, 4096, 20000)))
    if k == "frames":
        return b"".join(ref.frame(rng.randbytes(rng.choice((0, 1, 2, 3, rng.randrange(1024)))))
                        + gen.noise(rng, rng.choice((0, 0, 3))) for _ in range(60))
    if k == "supported":
        return b"".join(ref.frame(payload(rng, rng.choice(ref.ALL_NUMBERS), rng.choice((2, 3, 8, 21, 22, 61, 64, rng.randrange(2, 1024)))))
                        for _ in range(120))
    if k == "mutated":
        rec = gen.recordings()
        data = rec[rng.choice(sorted(rec))]
        if len(data) > 30000:
            i = rng.randrange(0, len(data) - 30000)
            data = data[i:i + 30000]
        fr = ref.scan(data, True).frames
        out = []
        for f in fr[:150]:
            pl = bytearray(ref.payload_of(f))
            x = rng.randrange(5)
            if x and len(pl) > 3:
                for _ in range(rng.choice((1, 3, 20))):
                    i = rng.randrange(12, 8 * len(pl))
                    pl[i >> 3] ^= 0x80 >> (i & 7)
                if x == 2:
                    pl = pl[: rng.randrange(2, len(pl) + 1)]
                if x == 3:
                    num = rng.choice(ref.ALL_NUMBERS)
                    pl[0], pl[1] = num >> 4, (num & 15) << 4 | pl[1] & 15
            g = ref.frame(bytes(pl))
            if x == 4:
                g = g[:-1]
            out.append(g)
        return b"".join(out)
    if k == "msm":
        out = []
        for _ in range(60):
            num = rng.choice(sorted(ref.MSM_NUMBERS))
            m = gen.msm(rng, num, known=rng.random() < .5, values=rng.choice(("edge", "mix", "rand")),
                        time=rng.choice(("any", "valid")))
            if rng.random() < .2:
                m.hdr["time"] = (1 << 30) - 1
            out.append(gen.msm_frame(rng, m))
        return b"".join(out)
    if k == "base":
        out = []
        for _ in range(60):
            num = rng.choice((1007, 1008, 1029, 1033, 1013, 1230, 1005, 1006))
            if num in (1007, 1008, 1029, 1033):
                t = [rng.randbytes(rng.randrange(0, 120)) for _ in range(5)]
                out.append(ref.frame(gen.base_payload(rng, num, texts=t)))
            else:
                out.append(ref.frame(gen.base_payload(rng, num, "edge")))
        return b"".join(out)
    raise ValueError(k)


def run(spec, mon):
    rng = rng_of(ID, spec)
    if spec["kind"] == "tiny":
        for data in (b"", b"\xd3", b"\xd3\x00", b"\x00", b"\xd3\x03\xff", ref.frame(b""), ref.frame(b"\x3e"), b"\xd3" * 5,
                     gen.noise(rng, rng.randrange(1, 8)), bytes(4096), b"\xd3" * 4096, gen.foreign_frame(rng, n=2),
                     gen.good_frame(rng), gen.good_frame(rng)[:-1]):
            small(mon, data, spec["mode"], rand_controls(rng))
        return
    if spec["kind"] == "numbers":
        for _ in range(spec["n"]):
            mode = rng.choice(sut.MODES)
            data = b"".join(gen.foreign_frame(rng, n=rng.choice((2, 3, 9))) for _ in range(600))
            one(mon, data, mode, rand_controls(rng), "unsupported numbers", clean=True)
        return
    for _ in range(2):
        one(mon, content(spec, rng), spec["mode"], rand_controls(rng), spec["kind"])


def small(mon, data, mode, c):
    """Sources with no or hardly any content: nothing is added to them."""
    conv = sut.convert(data, mode, ini=c.ini())
    mon.count("conversions")
    mon.count("tiny_files")
    mon.case(b"tiny" + mode.encode() + data)
    if conv.exc is not None:
        mon.fail(f"{mode}: file of {len(data)} bytes: main() raised {conv.exc!r}", data.hex())
        return
    last, verdict = sut.log_facts(conv.log)
    if verdict not in ("ok", "errors") or data and (not last or last[0] != 100.0):
        mon.fail(f"{mode}: file of {len(data)} bytes: verdict {verdict}, progress {last}", data.hex())
    if not data and (verdict != "ok" or any(v is not None for v in conv.files.values())):
        mon.fail(f"{mode}: empty file: verdict {verdict}, files {sorted(conv.files)}", data.hex())


END = "*end-marker*"


def one(mon, data, mode, c, label, clean=False):
    r = rng_of("end")
    m = gen.msm(r, 1077, sats=[7], sigs=[2], cells=[(7, 2)], values="small", time=604799999)
    gen.clean(r, m)
    # the hold of a candidate is flushed by the zeros
    marker = bytes(1100) + numbered(END) + ref.frame(ref.encode_msm(m))
    full = data + marker
    conv = sut.convert(full, mode, ini=c.ini())
    mon.count("conversions")
    s = ref.scan(full)
    mon.count("frames_in_files", len(s.frames))
    mon.case(mode.encode() + data if len(s.frames) > 2 else None)
    mon.sample({"mode": mode, "kind": label, "bytes": len(data), "frames": len(s.frames), "head": hexs(data, 24)}, 1)
    where = data.hex()
    if conv.exc is not None:
        mon.fail(f"{mode} {label}: main() raised {type(conv.exc).__name__}: {conv.exc}", where)
        return
    last, verdict = sut.log_facts(conv.log)
    mon.count(f"verdict_{verdict}")
    if verdict not in ("ok", "errors"):
        mon.fail(f"{mode} {label}: verdict {verdict}", where)
    if not last or last[0] != 100.0:
        mon.fail(f"{mode} {label}: processing did not reach the end of the file: {last}", where)
    # well-formed products
    found = False
    for p, raw in conv.files.items():
        if raw is None:
            continue
        try:
            if p.endswith(".json"):
                doc = sut.load_json(raw)
                if not (isinstance(doc, list) and doc and set(doc[0]) == {"source_type"}):
                    raise ValueError("not an array headed by the source type")
                if p == "BASE/TextStr-1029.json":
                    found |= any(x.get("message") in (END, END.encode().hex()) or
                                 x.get("message") == " ".join("0x%x" % b for b in END.encode()) for x in doc[1:])
            elif p.endswith(".obs"):
                lines = raw.decode("utf-8").split("\n")
                if lines.pop() != "" or len(lines) < 3:
                    raise ValueError("unterminated or empty")
                n = {len(x.split(",")) for x in lines}
                if len(n) != 1:
                    raise ValueError(f"rows of {n} columns")
                if mode == "MARGO" and p == "GPS/GC1C_MSM7.obs":
                    found |= lines[-1].split(",")[0].strip() == "604799999"
            else:
                raise ValueError("unknown product")
        except (ValueError, AttributeError, TypeError) as ex:
            mon.fail(f"{mode} {label}: product {p} is not well-formed: {ex}", where)
    if found:
        mon.count("end_markers_seen")
    else:
        mon.fail(f"{mode} {label}: the last message of the file was not processed", where)
    if clean:
        noisy = [x for x in (conv.log or "").splitlines() if ":ERROR:" in x or ":WARNING:" in x]
        if noisy:
            mon.fail(f"{mode} {label}: the log complains: {noisy[:2]}", where)
        extra = [p for p, v in conv.files.items() if v is not None and p not in (
            "BASE/TextStr-1029.json", "MSM7/GPS-MSM7-1077.json") and not p.startswith("GPS/G")]
        if extra:
            mon.fail(f"{mode} {label}: output {extra[:3]}", where)
        n = 1 if mode == "MARGO" else 2
        # the zeros before the marker are one gap
        if last and last[1:] != (n, 1, 0, 0):
            mon.fail(f"{mode} {label}: statistics {last[1:]}, expected ({n}, 1, 0, 0)", where)
