"""C15: MARGO values."""
from .margowork import *

ID = "C15"
RULE = ("MARGO and JARGO conversions of MSM streams with random, extreme and typical values for every constellation, signal and "
        "message type, GLONASS frequency-number tables and half-cycle option varied; every column of every row is compared with "
        "the reference value in MARGO units to the printed precision; non-trivial: conversions with values compared")
MINIMUM = {"sessions": 30, "conversions": 150, "values_compared": 60000, "glonass_values": 8000, "ambiguous_phases": 500}


REPEAT = 6


def jobs(tier, seed):
    for i in range(40 if tier == "quick" else 400):
        yield dict(kind="session", i=i, seed=seed)
    k = 1 if tier == "quick" else 15
    for num in ref.MSM_NUMBERS:
        for i in range((6 if ref.MSM_NUMBERS[num][0] == "R" else 3) * k):
            yield dict(num=num, i=i, seed=seed)


def typical(rng, num, time="valid"):
    """Plausible observables."""
    m = gen.msm(rng, num, time=time, in_range=True, values="rand", valid=1.0)
    for grp in (m.sat, m.sgn):
        for name, v in grp.items():
            for i in range(len(v)):
                if name == "rng_ms":
                    v[i] = rng.randint(64, 90)
                elif name == "phase_rate_rough":
                    v[i] = rng.randint(-800, 800)
                elif name in ("rng_fine", "phase_fine") and rng.random() < .5:
                    v[i] = rng.randint(-5000, 5000)
    return gen.msm_frame(rng, m)


def run(spec, mon):
    rng = rng_of(ID, spec)
    if spec.get("kind") == "session":
        session_job(mon, rng, ("MARGO", "MARGO", "JARGO"), ("margo.value", "margo.nan", "crash"), eph=False, base=False)
        return
    num = spec["num"]
    for j in range(4):
        c = rand_controls(rng)
        if j == 0:
            c.lit = dict(ref.DEFAULT_LITERALS)
        elif j == 1:
            c.lit = {i: i - 12 for i in range(1, 25)}
        fr = []
        for _ in range(rng.randrange(3, 12)):
            fr.append(typical(rng, num) if rng.random() < .5 else
                      message(rng, num, rng.choice(("plain", "hca", "borders", "full", "wide", "invalid", "beyond")))[0])
        data = b"".join(fr)
        mode = rng.choice(("MARGO", "MARGO", "JARGO"))
        conv, e = convert_and_judge(mon, data, mode, c, aspects=("margo.value", "margo.nan", "crash"), label=f"{num} {c.describe()}")
        n = 0
        if e is not None:
            for path, rows in judge.margo_expect(e, mode, c).items():
                n += sum(len(r[1]) for r in rows)
            for r in e.results:
                if r.msm and judge.status(r, mode) == ref.OK:
                    for lit, o in r.scaled["obs"]["hca"].items():
                        mon.count("ambiguous_phases", sum(bool(v) for v in o.values()))
        mon.count("values_compared", n)
        mon.count("glonass_values", n if 1080 < num < 1090 else 0)
        mon.case((mode, c.describe(), data) if n else None)
        mon.sample({"number": num, "mode": mode, "controls": c.describe(), "values": n}, 1)
