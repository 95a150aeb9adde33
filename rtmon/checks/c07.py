"""C07: scaled MSM."""
from .common import *
from . import msmwork

ID = "C07"
RULE = ("MSM1..7 messages of all seven constellations with known signals and ordinary values (every satellite number, "
        "every known signal, 64-cell shapes, single cells, walking bits, every lock-time index, random values), decoded "
        "in scaled mode and converted to JSON files; oracle: exact rational evaluation of the standard's formulas "
        "(1e-6 m, 1e-8 m/s); non-trivial: every distinct frame")
MINIMUM = {"sessions": 30, "results_compared_scaled": 8000, "conversions": 20}


REPEAT = 5


def jobs(tier, seed):
    for i in range(40 if tier == "quick" else 400):
        yield dict(kind="session", i=i, seed=seed)
    for num in sorted(ref.MSM_NUMBERS):
        yield dict(kind="sys", num=num, seed=seed)
        for i in range(1 if tier == "quick" else 15):
            yield dict(kind="rand", num=num, i=i, n=40 if tier == "quick" else 250, seed=seed)
    for i in range(24 if tier == "quick" else 200):
        yield dict(kind="file", i=i, seed=seed)


def run(spec, mon):
    rng = rng_of(ID, spec)
    if spec.get("kind") == "session":
        session_job(mon, rng, ("JSON",), ("json", "crash"), part="MSM", eph=False, base=False, in_range=False)
        return
    k = spec["kind"]
    if k == "file":
        fr = [gen.msm_frame(rng, gen.msm(rng, rng.choice(sorted(ref.MSM_NUMBERS)), values="mix", valid=1.0,
                                         nsat=rng.choice((None, 2, 5)), nsig=rng.choice((None, 2))))
              for _ in range(40)]
        c = ref.Controls(hdr=True, aux=True, pretty=rng.random() < 0.5)
        convert_and_judge(mon, b"".join(fr), "JSON", c, aspects=("json", "crash"), label="file")
        for f in fr:
            mon.case(b"f" + f)
        return
    num = spec["num"]
    g, n = ref.MSM_NUMBERS[num]
    mode = rng.choice(("JSON", "JSON", "MARGO", "JARGO"))
    with converter(mode) as conv:
        def go(m, label=""):
            gen.clean(rng, m)
            f = gen.msm_frame(rng, m)
            check_decode(mon, conv, mode, f, label)
            mon.sample({"number": num, "frame": f.hex()[:160], "satellites": m.sats,
                        "signals": [m.lit(s) for s in m.sigs]}, 1)

        if k == "rand":
            for _ in range(spec["n"]):
                go(gen.msm(rng, num, values=rng.choice(("rand", "edge", "mix"))))
            return
        for sats, sigs in msmwork.shapes(g, True):
            go(gen.msm(rng, num, sats=sats, sigs=sigs), f"satellites {sats[:3]}.. signals {sigs[:3]}..")
        for m, label in msmwork.walking(num, rng.choice(sorted(ref.SIGNALS[g]))):
            go(m, label)
        for m in msmwork.single_cells(rng, num, True):
            go(m, "single cell")
        go(gen.msm(rng, num, sats=[], sigs=[]), "no satellites")
        for lt in range(0, 1024 if n >= 6 else 16 if n > 1 else 0):
            sats = list(range(1, 33))
            if n >= 6 and lt % 32:
                continue
            m = gen.msm(rng, num, sats=sats, sigs=[2 if g != "I" else 8], cells=[(s, 2 if g != "I" else 8) for s in sats])
            m.sgn["lock_time"] = [lt + i for i in range(32)] if n >= 6 else [lt] * 32
            go(m, f"lock time {lt}")
        for a in range(4):
            for b in range(8):
                m = gen.msm(rng, num)
                m.hdr.update(clk_steer=a, clk_ext=(a + b) % 4, smth_indc=b & 1, smth_intr=b)
                go(m, "clock and smoothing codes")
