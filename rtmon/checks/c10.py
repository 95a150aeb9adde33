"""C10: base station data."""
from .common import *

ID = "C10"
RULE = ("well-formed 1005/1006/1007/1008/1013/1029/1033/1230 messages: every bit of the fixed fields, extreme and random "
        "values, texts of 0..255 bytes (ASCII, multi-byte UTF-8, control characters, quotes), every announcement count "
        "0..31 and counts derived from the length up to the frame limit, every 1230 mask; decoded bare and scaled and "
        "converted to files; oracle: the standard's field tables; non-trivial: every distinct frame")
MINIMUM = {"sessions": 30, "results_compared_bare": 4000, "results_compared_scaled": 4000, "conversions": 10}
EXHAUSTIVE = "text lengths 0..255, announcement counts 0..277, all 16 masks of 1230, each bit of 1005/1006"


REPEAT = 6


def jobs(tier, seed):
    for i in range(40 if tier == "quick" else 400):
        yield dict(kind="session", i=i, seed=seed)
    for num in ref.BASE_NUMBERS:
        yield dict(kind="sys", num=num, seed=seed)
        for i in range(6 if tier == "quick" else 60):
            yield dict(kind="rand", num=num, i=i, n=80 if tier == "quick" else 300, seed=seed)
    for i in range(24 if tier == "quick" else 150):
        yield dict(kind="file", i=i, seed=seed)


def run(spec, mon):
    rng = rng_of(ID, spec)
    if spec.get("kind") == "session":
        session_job(mon, rng, ("JSON", "JSON-B", "JARGO"), ("json", "crash"), part="BASE/", eph=False)
        return
    k = spec["kind"]
    if k == "file":
        fr = [ref.frame(gen.base_payload(rng, rng.choice(ref.BASE_NUMBERS))) for _ in range(40)]
        mode = rng.choice(("JSON", "JSON-B", "JARGO"))
        c = ref.Controls(hdr=rng.random() < .5, aux=rng.random() < .5, pretty=rng.random() < .5)
        convert_and_judge(mon, b"".join(fr), mode, c, aspects=("json", "crash"), label="file")
        for f in fr:
            mon.case(b"f" + f)
        return
    num = spec["num"]
    with converter("JSON-B") as bare, converter("JSON") as scaled:
        def go(pl, label=""):
            f = ref.frame(pl)
            check_decode(mon, bare, "JSON-B", f, label)
            check_decode(mon, scaled, "JSON", f, label)
            mon.sample({"number": num, "frame": f.hex()[:200], "label": label}, 1)

        if k == "rand":
            for _ in range(spec["n"]):
                go(gen.base_payload(rng, num, rng.choice(("rand", "edge", "mix"))))
            return
        if num in (1005, 1006):
            size = 19 if num == 1005 else 21
            top = 8 * size - 12
            for b in range(top):
                for v in (1 << b, ((1 << top) - 1) ^ (1 << b)):
                    go((v | num << top).to_bytes(size, "big"), f"payload bit {8 * size - 1 - b}")
            go((num << top).to_bytes(size, "big"))
            go((num << top | ((1 << top) - 1)).to_bytes(size, "big"))
        elif num in (1007, 1008, 1033, 1029):
            ns = {1007: 1, 1008: 2, 1033: 5, 1029: 1}[num]
            for n in range(256):
                for pos in range(ns):
                    t = [b"ab"] * ns
                    t[pos] = (b"%03d-" % n + b"z" * n)[:n]
                    go(gen.base_payload(rng, num, texts=t), f"text {pos} of {n} bytes")
            for t in gen.TEXTS:
                go(gen.base_payload(rng, num, texts=[t.encode()] * ns), f"text {t[:10]!r}")
            if num == 1033:  # frames of the greatest length
                for total in (1014, 1013, 1012, 1010, 1000, 900, 800):
                    for _ in range(4):
                        cut = [255] * 5
                        while sum(cut) > total:
                            j = rng.randrange(5)
                            cut[j] -= min(cut[j], rng.randint(1, sum(cut) - total))
                        go(gen.base_payload(rng, num, texts=[bytes(rng.choices(range(32, 127), k=n)) for n in cut]),
                           f"texts of {cut}")
            for mix in range(1 << ns):
                t = [b"" if mix >> i & 1 else b"text%d" % i for i in range(ns)]
                go(gen.base_payload(rng, num, texts=t), f"empty texts mask {mix}")
            for b in range(256):  # any byte may appear; only valid UTF-8 is judged in scaled form
                go(gen.base_payload(rng, num, texts=[bytes([b, 0x41])] * ns), f"byte {b}")
                for r in (2, 3, 5, 8, 32):  # runs of it: alone, first, last and inside
                    t = [rng.choice((bytes([b]) * r, bytes([b]) * r + b"q", b"q" + bytes([b]) * r, b"q" + bytes([b]) * r + b"q"))
                         for _ in range(ns)]
                    go(gen.base_payload(rng, num, texts=t), f"byte {b} {r} times")
            for _ in range(60):
                go(gen.base_payload(rng, num, texts=[rng.randbytes(rng.randrange(0, 120)) for _ in range(ns)]), "any bytes")
        elif num == 1013:
            for n in range(1, 32):
                go(gen.base_payload(rng, num, n1013=(n, n)), f"{n} announcements")
            for n in range(0, 278):
                go(gen.base_payload(rng, num, n1013=(0, n)), f"{n} announcements, count from the length")
        else:
            for mask in range(16):
                for ic in range(2):
                    for vals in ("rand", "edge", "small", "mix", "mix"):
                        go(gen.base_payload(rng, num, vals, mask1230=mask), f"mask {mask}")
            for v in list(range(-40, 41)) + [-32767, 32767, 16384, -16384] + [1 << i for i in range(15)]:
                for mask in (8, 4, 2, 1):
                    w = ref.BitWriter()
                    for x, n in ((1230, 12), (rng.getrandbits(12), 12), (1, 1), (0, 3), (mask, 4), (v, 16)):
                        w.put(x, n)
                    go(w.bytes(), f"bias {v}")
