"""C09: ephemeris."""
from .common import *

ID = "C09"
RULE = ("messages 1019/1020/1041/1042/1044/1045/1046 with every payload bit set alone and cleared alone, every field at "
        "its extremes, all single and random field combinations, decoded bare and scaled and converted to files; oracle: "
        "the standard's field tables; non-trivial: every distinct frame")
MINIMUM = {"sessions": 30, "results_compared_bare": 7000, "results_compared_scaled": 7000, "conversions": 10}
EXHAUSTIVE = "every single payload bit of all seven messages, set alone and cleared alone"


REPEAT = 6


def jobs(tier, seed):
    for i in range(40 if tier == "quick" else 400):
        yield dict(kind="session", i=i, seed=seed)
    for num in sorted(ref.EPH_NUMBERS):
        yield dict(kind="bits", num=num, seed=seed)
        yield dict(kind="fields", num=num, seed=seed)
        for i in range(2 if tier == "quick" else 30):
            yield dict(kind="rand", num=num, i=i, n=150 if tier == "quick" else 500, seed=seed)
    for i in range(16 if tier == "quick" else 100):
        yield dict(kind="file", i=i, seed=seed)


def run(spec, mon):
    rng = rng_of(ID, spec)
    if spec.get("kind") == "session":
        session_job(mon, rng, ("JSON", "JSON-B", "JARGO"), ("json", "crash"), part="EPH/", base=False)
        return
    k = spec["kind"]
    if k == "file":
        fr = [ref.frame(gen.eph_payload(rng, rng.choice(sorted(ref.EPH_NUMBERS)), "mix")) for _ in range(50)]
        mode = rng.choice(("JSON", "JSON-B"))
        c = ref.Controls(hdr=rng.random() < .5, aux=rng.random() < .5, pretty=rng.random() < .5)
        convert_and_judge(mon, b"".join(fr), mode, c, aspects=("json", "crash"), label="file")
        for f in fr:
            mon.case(b"f" + f)
        return
    num = spec["num"]
    bits = ref.EPH_BITS[num]
    size = (bits + 7) // 8
    with converter("JSON-B") as bare, converter("JSON") as scaled:
        def go(pl, label=""):
            f = ref.frame(pl)
            check_decode(mon, bare, "JSON-B", f, label)
            check_decode(mon, scaled, "JSON", f, label)
            mon.sample({"number": num, "frame": f.hex(), "label": label}, 1)

        def with_num(v):
            top = 8 * size - 12
            return ((v & ((1 << top) - 1)) | num << top).to_bytes(size, "big")

        if k == "bits":
            top = 8 * size - 12
            for b in range(top):
                go(with_num(1 << b), f"payload bit {8 * size - 1 - b} alone")
                go(with_num(((1 << top) - 1) ^ (1 << b)), f"payload bit {8 * size - 1 - b} cleared")
            go(with_num(0))
            go(with_num(-1))
        elif k == "fields":
            for i, (name, kind, w, _) in enumerate(ref.EPH_SPEC[num]):
                hi = (1 << w) - 1
                vals = {0, 1, hi, hi - 1 & hi, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1 & hi, rng.getrandbits(w)}
                if num == 1020 and name == "tk":
                    vals |= {h << 7 | m << 1 | s for h in range(24) for m in (0, 1, 30, 59) for s in (0, 1)}
                if w <= 6:
                    vals |= set(range(hi + 1))
                for v in sorted(vals):
                    go(gen.eph_put(num, {i: v}), f"{name}={v}")
                    pl = {j: rng.getrandbits(x[2]) for j, x in enumerate(ref.EPH_SPEC[num])}
                    pl[i] = v
                    go(gen.eph_put(num, pl), f"{name}={v}")
        else:
            for _ in range(spec["n"]):
                go(gen.eph_payload(rng, num, rng.choice(("rand", "edge", "mix", "small"))))
