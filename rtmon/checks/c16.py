"""C16: MARGO time."""
from .margowork import *

ID = "C16"
RULE = ("MARGO and JARGO conversions of MSM streams with epochs at and around every day and week boundary of every "
        "constellation, all GLONASS days, all hours, leap-second instants, random epochs, and leap-second shifts 0..40; the "
        "first column is compared with GPS time of week computed by the reference; non-trivial: rows with a defined epoch")
MINIMUM = {"sessions": 30, "conversions": 100, "times_compared": 20000, "wrapped": 800, "other_day": 800}


REPEAT = 3


def jobs(tier, seed):
    for i in range(40 if tier == "quick" else 400):
        yield dict(kind="session", i=i, seed=seed)
    k = 1 if tier == "quick" else 15
    for g in ref.SIGNALS:
        for n in range(1, 8):
            yield dict(gnss=g, n=n, i=0, seed=seed)
        for i in range(k):
            yield dict(gnss=g, n=None, i=i, seed=seed)
    for i in range(8 * k):
        yield dict(gnss="R", n=None, i=100 + i, seed=seed)
        yield dict(gnss="B", n=None, i=100 + i, seed=seed)


def epochs(rng, g, utc):
    out = set()
    near = lambda x: [x + d for d in (-1001, -1000, -999, -1, 0, 1, 999, 1000)]  # noqa: E731
    if g == "R":
        for day in range(7):
            pts = [0, ref.DAY - 1, ref.DAY, ref.DAY + 999, 10800000, 10800000 - utc * 1000, ref.DAY // 2]
            pts += [h * 3600000 for h in range(24)]
            for p in pts:
                for t in near(p):
                    if 0 <= t < ref.DAY + 1000:
                        out.add((day << 27) | t)
            out |= {(day << 27) | rng.randrange(ref.DAY) for _ in range(20)}
    else:
        pts = [0, ref.WEEK - 1, ref.WEEK - 14000, ref.WEEK - 13999, ref.WEEK - 18000, 14000, ref.WEEK // 2]
        pts += [d * ref.DAY for d in range(7)] + [d * ref.DAY - 14000 for d in range(1, 8)]
        for p in pts:
            for t in near(p):
                if 0 <= t < ref.WEEK:
                    out.add(t)
        out |= {rng.randrange(ref.WEEK) for _ in range(60)}
    return sorted(out)


def run(spec, mon):
    rng = rng_of(ID, spec)
    if spec.get("kind") == "session":
        session_job(mon, rng, ("MARGO", "JARGO"), ("margo.time", "margo.rows", "margo.files", "crash"), eph=False, base=False)
        return
    g = spec["gnss"]
    for utc in (18, rng.choice((0, 1, 14, 17, 19, 27, 37, 40, rng.randrange(0, 41), -1, -rng.randrange(2, 41)))):
        c = rand_controls(rng)
        c.utc = utc
        ts = epochs(rng, g, utc)
        if rng.random() < .5:
            rng.shuffle(ts)
        nums = [n for n, (gg, k) in ref.MSM_NUMBERS.items() if gg == g and spec["n"] in (None, k)]
        fr = []
        sig = sorted(ref.SIGNALS[g])[0]
        for t in ts:
            m = gen.msm(rng, rng.choice(nums), sats=[1], sigs=[sig], cells=[(1, sig)], time=t, values="small", valid=1.0)
            fr.append(gen.msm_frame(rng, m))
            mon.count("times_compared", t == t)
            if g == "R":
                raw = m.day * ref.DAY + m.tod - 10800000 + utc * 1000
                mon.count("wrapped", not 0 <= raw < ref.WEEK)
                mon.count("other_day", raw // ref.DAY != m.day)
            elif g == "B":
                mon.count("wrapped", t + 14000 >= ref.WEEK)
        data = b"".join(fr)
        mode = rng.choice(("MARGO", "JARGO"))
        convert_and_judge(mon, data, mode, c, aspects=("margo.time", "margo.rows", "margo.files", "crash"), label=f"{g} utc {utc}")
        mon.case((mode, utc, data))
        mon.sample({"gnss": g, "mode": mode, "utc": utc, "epochs": len(ts), "first": ts[:3]}, 1)
