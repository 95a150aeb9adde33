"""C14: MARGO product structure."""
from .margowork import *

ID = "C14"
RULE = ("MARGO and JARGO conversions by main() of MSM streams over every constellation and message type (every known signal, "
        "satellites at and beyond the column range, invalid values, empty messages, long runs, descending times) under random "
        "options; file set, header and frequency rows, number, order and formatting of rows and NaN placement are compared "
        "with the reference; non-trivial: conversions with at least one row")
MINIMUM = {"sessions": 30, "conversions": 150, "obs_files": 3000, "rows_expected": 15000, "nan_rows": 10}
ASPECTS = ("margo.files", "margo.head", "margo.rows", "margo.fmt", "margo.nan", "crash")


REPEAT = 4


def jobs(tier, seed):
    for i in range(40 if tier == "quick" else 400):
        yield dict(kind="session", i=i, seed=seed)
    k = 1 if tier == "quick" else 15
    for num in ref.MSM_NUMBERS:
        for i in range(2 * k):
            yield dict(kind="type", num=num, i=i, seed=seed)
    for i in range(24 * k):
        yield dict(kind="mix", i=i, seed=seed)
        yield dict(kind="order", i=i, seed=seed)
    for g in ref.SIGNALS:
        yield dict(kind="signals", gnss=g, seed=seed)
    yield dict(kind="long", n=6000 if tier == "quick" else 30000, seed=seed % 7919)


def judge_one(mon, data, mode, c, label, aspects=ASPECTS):
    conv, e = convert_and_judge(mon, data, mode, c, aspects=aspects, label=f"{label} {c.describe()}")
    mon.count("obs_files", sum(p.endswith(".obs") for p in conv.files))
    rows = 0
    if e is not None:
        for rs in judge.margo_expect(e, mode, c).values():
            rows += len(rs)
            mon.count("nan_rows", sum(not r[1] for r in rs))
    mon.count("rows_expected", rows)
    mon.case((mode, c.describe(), data) if rows else None)
    mon.sample({"mode": mode, "case": label, "rows": rows, "files": sorted(conv.files)[:3]}, 1)


def run(spec, mon):
    rng = rng_of(ID, spec)
    if spec.get("kind") == "session":
        session_job(mon, rng, ("MARGO", "JARGO"), ASPECTS, eph=False, base=False)
        return
    k = spec["kind"]
    if k == "type":
        for style in sorted(set(STYLES)) + ["mixed"]:
            fr = [message(rng, spec["num"], rng.choice(STYLES) if style == "mixed" else style)[0]
                  for _ in range(rng.randrange(1, 6))]
            judge_one(mon, b"".join(fr), rng.choice(("MARGO", "MARGO", "JARGO")), rand_controls(rng), f"{spec['num']} {style}")
    elif k == "mix":
        nums = rng.sample(sorted(ref.MSM_NUMBERS), rng.choice((2, 5, 20)))
        fr = []
        for _ in range(rng.randrange(5, 60)):
            x = rng.random()
            fr.append(message(rng, rng.choice(nums), rng.choice(STYLES))[0] if x < .85 else
                      gen.bad_frame(rng) if x < .9 else gen.good_frame(rng) if x < .95 else gen.foreign_frame(rng))
        judge_one(mon, b"".join(fr), rng.choice(("MARGO", "JARGO")), rand_controls(rng), "mixed")
    elif k == "order":
        # distinct times in any order: rows follow the stream
        num = rng.choice([n for n, (g, _) in ref.MSM_NUMBERS.items() if g in "GEQI"])
        times = rng.sample(range(ref.WEEK), 30)
        how = rng.randrange(4)
        if how == 0:
            times.sort()
        elif how == 1:
            times.sort(reverse=True)
        elif how == 2:
            times = [times[0]] * 5 + times
        fr = [message(rng, num, "plain", t)[0] for t in times]
        judge_one(mon, b"".join(fr), rng.choice(("MARGO", "JARGO")), rand_controls(rng), "order", ASPECTS + ("margo.time",))
    elif k == "signals":
        # every signal of the constellation alone and all together, in every message type
        g = spec["gnss"]
        pool = sorted(ref.SIGNALS[g])
        for num, (gg, n) in ref.MSM_NUMBERS.items():
            if gg != g:
                continue
            for hca, lock in ((0, 0), (0, 1), (1, 0), (1, 1)):
                fr = [gen.msm_frame(rng, gen.msm(rng, num, sats=[1, 3], sigs=[s], time="valid", valid=1)) for s in pool]
                fr.append(gen.msm_frame(rng, gen.msm(rng, num, sats=[2], sigs=pool, cells=[(2, s) for s in pool], time="valid", valid=1)))
                judge_one(mon, b"".join(fr), "MARGO", ref.Controls(hca=bool(hca), lock=bool(lock)), f"signals of {num}")
    else:
        fr = [message(rng, n, "plain")[0] for n in (1077, 1087, 1097, 1127, 1074, 1071, 1082, 1133) for _ in range(4)]
        judge_one(mon, b"".join(rng.choice(fr) for _ in range(spec["n"])), "MARGO", ref.Controls(hca=True, lock=True), "long")
