"""C25: tables."""
from .common import *

ID = "C25"
RULE = ("complete enumeration: all message numbers 0..4095 through the classification functions, all 32 signal numbers of 7 "
        "constellations, all RINEX codes (digit, letter), all lock-time indicators, clock and smoothing codes, compared with "
        "independently written tables; all 4096 numbers decoded in every mode (three payload lengths, and as frames of a fed "
        "stream) with the attempt counter and the result observed; non-trivial: every code that has a meaning")
EXHAUSTIVE = "message numbers, signal numbers, lock-time, clock and smoothing codes"
MINIMUM = {"numbers_classified": 4096, "signals_classified": 224, "frequencies_known": 60, "codes": 1050, "attempts_observed": 40000}


RINEX = {  # RINEX 3.04 codes with a carrier, by system
    "G": "1C 1L 1M 1N 1P 1S 1W 1X 1Y 2C 2D 2L 2M 2N 2P 2S 2W 2X 2Y 5I 5Q 5X".split(),
    "R": "1C 1P 2C 2P 3I 3Q 3X 4A 4B 4X 6A 6B 6X".split(),
    "E": "1A 1B 1C 1X 1Z 5I 5Q 5X 6A 6B 6C 6X 6Z 7I 7Q 7X 8I 8Q 8X".split(),
    "S": "1C 5I 5Q 5X".split(),
    "Q": "1C 1L 1S 1X 1Z 2L 2S 2X 5D 5I 5P 5Q 5X 5Z 6E 6L 6S 6X 6Z".split(),
    "B": "1A 1D 1N 1P 1X 2I 2Q 2X 5D 5P 5X 6I 6Q 6X 7D 7I 7P 7Q 7X 7Z 8D 8P 8X".split(),
    "I": "5A 5B 5C 5X 9A 9B 9C 9X".split(),
}


REPEAT = 4


def jobs(tier, seed):
    yield dict(kind="tables", seed=seed)
    for mode in sut.MODES:
        for i in range(0, 4096, 512):
            yield dict(kind="numbers", mode=mode, lo=i, hi=i + 512, seed=seed, reps=1 if tier == "quick" else 20)


LEG = {1001: ("G", "LEG1"), 1002: ("G", "LEG2"), 1003: ("G", "LEG3"), 1004: ("G", "LEG4"),
       1009: ("R", "LEG1"), 1010: ("R", "LEG2"), 1011: ("R", "LEG3"), 1012: ("R", "LEG4")}


def classify(n):
    if n in ref.MSM_NUMBERS:
        g, k = ref.MSM_NUMBERS[n]
        return g, f"MSM{k}"
    if n in ref.EPH_NUMBERS:
        return ref.EPH_NUMBERS[n], "EPH"
    return LEG.get(n, ("", ""))


def run(spec, mon):
    rng = rng_of(ID, spec)
    u = sut.load()["util"]
    if spec["kind"] == "tables":
        def want(name, got, exp):
            mon.case((name, got) if exp not in (None, ("", "")) else None)
            if got != exp:
                mon.fail(f"{name} is {got!r}, expected {exp!r}")

        for n in range(4096):
            e = classify(n)
            want(f"getSubset({n})", tuple(u.getSubset(n)), e)
            mon.count("numbers_classified")
            want(f"msm_subset({n})", tuple(u.MSMT.msm_subset(n)), e if e[1].startswith("MSM") else ("", ""))
            want(f"eph_subset({n})", tuple(u.EPHT.eph_subset(n)), e if e[1] == "EPH" else ("", ""))
            want(f"legacy_subset({n})", tuple(u.LEGT.legacy_subset(n)), LEG.get(n, ("", "")))
        for g, tab in ref.SIGNALS.items():
            for s in range(1, 33):
                want(f"rnx_lit({g}, {s})", u.MSMT.rnx_lit(g, s), tab.get(s))
                mon.count("signals_classified")
            for band in "0123456789":
                for ch in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
                    try:
                        f = u.MSMT.crr_frq(g, band + ch)
                    except KeyError:
                        f = None
                    if f is None:
                        if band + ch in tab.values() or band + ch in RINEX[g]:
                            mon.fail(f"no carrier frequency for {g} {band + ch}")
                        continue
                    mon.count("frequencies_known")
                    want(f"crr_frq({g}, {band + ch})", f, ref.BAND.get(g + band))
        for i in range(1024):
            want(f"lock time 10 bit {i}", u.MSMT.unpack_tlock10(i), ref.tlock10(i))
            mon.count("codes")
        for i in range(16):
            want(f"lock time 4 bit {i}", u.MSMT.unpack_tlock4(i), ref.tlock4(i))
            mon.count("codes")
        for i in range(4):
            want(f"clock steering {i}", u.MSMT.unpack_clk_steer(i), ref.CLK_STEER[i])
            want(f"external clock {i}", u.MSMT.unpack_clk_ext(i), ref.CLK_EXT[i])
            mon.count("codes", 2)
        for i in range(2):
            want(f"smoothing {i}", u.MSMT.unpack_smth_indc(i), ref.SMTH_INDC[i])
            mon.count("codes")
        for i in range(8):
            want(f"smoothing interval {i}", u.MSMT.unpack_smth_intr(i), ref.SMTH_INTR[i])
            mon.count("codes")
        mon.sample({"getSubset(1077)": u.getSubset(1077), "rnx_lit(E,16)": u.MSMT.rnx_lit("E", 16)})
        # the attribution as seen in a decoded message
        with converter("JSON") as conv, converter("JSON-B") as bare:
            for num, (g, k) in ref.MSM_NUMBERS.items():
                for s in range(1, 33):
                    m = gen.msm(rng, num, sats=[1], sigs=[s], cells=[(1, s)], values="small", valid=1, time="valid")
                    f = gen.msm_frame(rng, m)
                    x, y = conv.decode(f), bare.decode(f)
                    mon.count("decoded_signals")
                    mon.case((num, s))
                    if y is None or (y.atr.gnss, y.atr.subset, y.atr.msg_number) != (g, f"MSM{k}", num):
                        mon.fail(f"message {num} is attributed wrongly", f.hex())
                    lit = ref.SIGNALS[g].get(s)
                    if lit is None:
                        continue
                    if x is None or set(x.hdr.signals) != {lit} or abs(x.hdr.signals[lit] - ref.carrier(g, lit)) > 1e-9:
                        mon.fail(f"message {num}: signal {s} shown as {None if x is None else x.hdr.signals}, expected {lit}", f.hex())
        return
    mode = spec["mode"]
    with converter(mode) as conv:
        for n in range(spec["lo"], spec["hi"]):
            for _ in range(spec["reps"]):
                for ln in (2, 3, rng.randrange(4, 200)):
                    b = bytearray(rng.randbytes(ln))
                    b[0], b[1] = n >> 4, (n & 15) << 4 | b[1] & 15
                    f = ref.frame(bytes(b))
                    s0 = conv.get_statistics()
                    if ln == 3:
                        got = [conv.decode(m) for m in conv.parse_bytes(f)]
                        x = got[0] if got else "not extracted"
                    else:
                        x = conv.decode(f)
                    s1 = conv.get_statistics()
                    mon.count("attempts_observed")
                    mon.case((mode, n, ln) if n in ref.ALL_NUMBERS else None)
                    d = s1.decoding_attempts - s0.decoding_attempts
                    sup = ref.supported(mode, n)
                    if d != sup:
                        mon.fail(f"{mode}: message {n} counted as {d} attempts, expected {int(sup)}", f.hex())
                    if not sup and (x is not None or s1.decoding_errors != s0.decoding_errors):
                        mon.fail(f"{mode}: unsupported message {n} gave {x!r:.60} / an error", f.hex())
