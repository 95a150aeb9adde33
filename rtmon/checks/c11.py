"""C11: malformed messages."""
from .common import *

ID = "C11"
RULE = ("well-formed messages of every supported number truncated at every byte, extended, with satellite/signal/cell masks, "
        "text lengths and counts altered, random payloads, more than 64 cells, no signals or no cells; decoded alone and "
        "between intact messages, in every mode, and converted as files; oracle: the reference decoder's length and mask "
        "rules; non-trivial: payloads that must be rejected")
MINIMUM = {"rejections_seen": 8000, "neighbours_checked": 500, "conversions": 24}
EXHAUSTIVE = "every truncation point (in bytes) of the generated messages"


REPEAT = 10


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for num in ref.ALL_NUMBERS:
        for i in range(k):
            yield dict(kind="cut", num=num, i=i, seed=seed)
    for i in range(16 * k):
        yield dict(kind="neigh", i=i, seed=seed)
    for i in range(12 * k):
        yield dict(kind="file", i=i, seed=seed)
    for mode in sut.MODES:
        yield dict(kind="streak", mode=mode, n=1500 * (1 if k == 1 else 10), seed=seed)


def probe(mon, convs, frm, label):
    """A frame that may or may not be malformed, in the given modes, with its effect on the statistics."""
    r = ref.reference(frm)
    if r.kind in ("none", "short"):
        return
    for mode, conv in convs.items():
        if not ref.supported(mode, r.num):
            continue
        a = conv.get_statistics()
        got = conv.decode(frm)
        b = conv.get_statistics()
        st = judge.status(r, mode)
        mon.case(mode.encode() + frm if st == ref.REJECT else None)
        if st == ref.OPEN:
            continue
        if st == ref.OK:
            mon.count("accepted_seen")
            if got is None:
                mon.fail(f"{mode}: well-formed message {r.num} rejected ({label})", frm.hex())
            continue
        mon.count("rejections_seen")
        if got is not None:
            mon.fail(f"{mode}: malformed message {r.num} ({label}) gave a result", frm.hex())
        d = (b.decoding_attempts - a.decoding_attempts, b.decoding_errors - a.decoding_errors)
        if d != (1, 1):
            mon.fail(f"{mode}: malformed message {r.num} ({label}) changed (attempts, errors) by {d}", frm.hex())


def variants(rng, num):
    f = gen.good_frame(rng, num)
    pl = ref.payload_of(f)
    for n in range(2, len(pl)):
        yield pl[:n], f"cut to {n} of {len(pl)} bytes"
    for n in (1, 2, 3, 4, 8, 50):
        if len(pl) + n <= 1023:
            yield pl + bytes(n), f"{n} zero bytes more"
            yield pl + rng.randbytes(n), f"{n} bytes more"
    for _ in range(20):
        b = bytearray(pl)
        i = rng.randrange(12, 8 * len(b))
        b[i >> 3] ^= 0x80 >> (i & 7)
        yield bytes(b), f"bit {i} flipped"
    if num in ref.MSM_NUMBERS:
        for i in range(73, 169):
            b = bytearray(pl)
            b[i >> 3] ^= 0x80 >> (i & 7)
            yield bytes(b), f"mask bit {i} flipped"
        m = gen.msm(rng, num, nsat=3, nsig=2)
        cells = m.cells
        m.cells = []
        m.sgn = {k: [] for k in m.sgn}
        yield ref.encode_msm(m), "no cells"
        m = gen.msm(rng, num, nsat=3, nsig=2)
        m.sigs, m.cells, m.sgn = [], [], {k: [] for k in m.sgn}
        yield ref.encode_msm(m), "satellites without signals"
        for ns, ng in ((65, 1), (33, 2), (22, 3), (13, 5), (9, 8), (3, 22), (64, 32), (4, 17)):
            if ns > 64:
                continue
            sats, sigs = list(range(1, ns + 1)), list(range(1, ng + 1))
            full = [(a, b) for a in sats for b in sigs]
            m = gen.msm(rng, num, sats=sats, sigs=sigs, cells=rng.sample(full, min(len(full), rng.choice((1, 20)))))
            p = ref.encode_msm(m)
            if len(p) <= 1023:
                yield p, f"{ns}x{ng} cells"
    elif num in ref.BASE_NUMBERS:
        for i in range(24, min(8 * len(pl), 80)):
            b = bytearray(pl)
            b[i >> 3] ^= 0x80 >> (i & 7)
            yield bytes(b), f"bit {i} flipped"
    for n in (2, 3, 5, 20, 60, 200, 1023):
        b = bytearray(rng.randbytes(n))
        b[0], b[1] = num >> 4, (num & 15) << 4 | b[1] & 15
        yield bytes(b), f"{n} random bytes"


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "cut":
        with converter("JSON") as a, converter("JSON-B") as b, converter("MARGO") as c:
            convs = {"JSON": a, "JSON-B": b, "MARGO": c}
            for pl, label in variants(rng, spec["num"]):
                probe(mon, convs, ref.frame(pl), label)
                mon.sample({"number": spec["num"], "payload": hexs(pl), "label": label}, 1)
    elif k == "neigh":
        for mode in sut.MODES:
            with converter(mode) as conv:
                for _ in range(12):
                    g1, b, g2 = gen.good_frame(rng), gen.bad_frame(rng), gen.good_frame(rng)
                    for f in (g1, b, b, g2):
                        check_decode(mon, conv, mode, f, "around a malformed message") if ref.supported(
                            mode, ref.msg_number(f)) else conv.decode(f)
                        mon.count("neighbours_checked")
    elif k == "streak":
        mode = spec["mode"]
        pool = [gen.bad_frame(rng) for _ in range(60)]
        pool = [f for f in pool if ref.supported(mode, ref.msg_number(f))]
        one = rng.choice(pool)
        nums = [n for n in ref.ALL_NUMBERS if ref.supported(mode, n)]
        with converter(mode) as conv:
            for i in range(spec["n"]):
                f = one if i < spec["n"] // 2 else rng.choice(pool)
                if conv.decode(f) is not None:
                    mon.fail(f"{mode}: malformed message {ref.msg_number(f)} gave a result after {i} others", f.hex())
                    return
                st = conv.get_statistics()
                mon.count("rejections_seen")
                if (st.decoding_attempts, st.decoding_errors) != (i + 1, i + 1):
                    mon.fail(f"{mode}: (attempts, errors) = {(st.decoding_attempts, st.decoding_errors)} after {i + 1} malformed messages",
                             f.hex())
                    return
            for n in nums:
                check_decode(mon, conv, mode, gen.good_frame(rng, n), f"after {spec['n']} malformed messages")
                mon.count("neighbours_checked")
        mon.case((mode, spec["n"], hexs(one)))
    else:
        good = [gen.good_frame(rng, time="valid") for _ in range(25)]
        mixed = []
        for g in good:
            for _ in range(rng.randrange(0, 3)):
                mixed.append(gen.bad_frame(rng))
            mixed.append(g)
        mixed.append(gen.bad_frame(rng))
        mode = rng.choice(sut.MODES)
        c = ref.Controls()
        data = b"".join(mixed)
        conv, e = convert_and_judge(mon, data, mode, c, aspects=("json", "margo", "crash", "stats"), label="with malformed messages")
        alone = sut.convert(b"".join(good), mode, ini=c.ini())
        mon.count("conversions")
        mon.case(mode.encode() + data)
        if alone.files != conv.files:
            mon.fail(f"{mode}: products differ from those without the malformed messages", data.hex())
