"""C08: invalid-value markers."""
from .common import *

ID = "C08"
RULE = ("MSM messages in which one marker, its neighbouring codes, or a random subset of markers is placed at every "
        "cell or satellite position, decoded in scaled mode and converted to JSON and MARGO files; oracle: the affected "
        "observable absent, everything else present with the right value; non-trivial: frames with at least one marker "
        "or adjacent code")
MINIMUM = {"results_compared_scaled": 5000, "markers_placed": 5000, "conversions": 20}

FIELDS = {1: ("rng_fine",), 2: ("phase_fine",), 3: ("rng_fine", "phase_fine"),
          4: ("rng_ms", "rng_fine", "phase_fine"), 6: ("rng_ms", "rng_fine", "phase_fine"),
          5: ("rng_ms", "phase_rate_rough", "rng_fine", "phase_fine", "phase_rate_fine"),
          7: ("rng_ms", "phase_rate_rough", "rng_fine", "phase_fine", "phase_rate_fine")}


REPEAT = 6


def jobs(tier, seed):
    for num in sorted(ref.MSM_NUMBERS):
        for i in range(1 if tier == "quick" else 12):
            yield dict(kind="one", num=num, i=i, seed=seed)
            yield dict(kind="many", num=num, i=i, n=50 if tier == "quick" else 200, seed=seed)
    for i in range(24 if tier == "quick" else 200):
        yield dict(kind="file", i=i, seed=seed)


def put(m, name, i, v):
    (m.sat if name in m.sat else m.sgn)[name][i] = v


def length(m, name):
    return len((m.sat if name in m.sat else m.sgn)[name])


def ordinary(rng, num, **kw):
    m = gen.msm(rng, num, values="rand", in_range=True, **kw)
    gen.clean(rng, m)
    return m


def sprinkle(rng, m, p, mon):
    for name in FIELDS[m.n]:
        for i in range(length(m, name)):
            if rng.random() < p:
                put(m, name, i, gen.marker(m, name))
                mon.count("markers_placed")
    return m


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "file":
        fr = []
        for _ in range(30):
            m = ordinary(rng, rng.choice(sorted(ref.MSM_NUMBERS)), time="valid",
                         nsat=rng.choice((None, 2, 5)), nsig=rng.choice((None, 2)))
            sprinkle(rng, m, rng.choice((0.05, 0.3, 0.9, 1.0)), mon)
            fr.append(gen.msm_frame(rng, m))
        data = b"".join(fr)
        convert_and_judge(mon, data, "JSON", None, aspects=("json", "crash"), label="file")
        c = ref.Controls(hca=rng.random() < 0.5, lock=rng.random() < 0.5)
        convert_and_judge(mon, data, "MARGO", c, aspects=("margo.nan", "margo.value", "margo.files", "margo.rows", "crash"),
                          label="file")
        for f in fr:
            mon.case(b"f" + f)
        return
    num = spec["num"]
    n = ref.MSM_NUMBERS[num][1]
    with converter("JSON") as conv:
        def go(m, label):
            f = gen.msm_frame(rng, m)
            check_decode(mon, conv, "JSON", f, label)
            return f

        if k == "many":
            for _ in range(spec["n"]):
                m = ordinary(rng, num, nsat=rng.choice((None, 2, 5)))
                go(sprinkle(rng, m, rng.choice((0.02, 0.2, 0.6, 0.95, 1.0)), mon), "several markers")
            return
        base = ordinary(rng, num, nsat=4, nsig=3)
        for name in FIELDS[n]:
            mk = gen.marker(base, name)
            w = next(x[1] for x in ref.SAT_FIELDS[n] + ref.SGN_FIELDS[n] if x[0] == name)
            near = (mk, mk + 1, mk - 1, mk + 2, -mk - 1, 0, -1, mk // 2, mk | 1) if mk < 0 else (255, 254, 253, 0, 127, 128)
            for i in range(length(base, name)):
                for v in near:
                    if mk < 0 and not -(1 << (w - 1)) <= v < 1 << (w - 1):
                        continue
                    m = ordinary(rng, num, sats=base.sats, sigs=base.sigs, cells=base.cells)
                    put(m, name, i, v)
                    if v == mk:
                        mon.count("markers_placed")
                    else:
                        mon.count("adjacent_codes_placed")
                    f = go(m, f"{name}[{i}]={v}")
                    mon.sample({"number": num, "field": name, "value": v, "frame": f.hex()[:120]}, 1)
                    # the same cell with a second marker elsewhere
                    other = rng.choice(FIELDS[n])
                    j = rng.randrange(length(m, other))
                    if (other, j) != (name, i):
                        put(m, other, j, gen.marker(m, other))
                        mon.count("markers_placed")
                        go(m, f"{name}[{i}]={v} and {other}[{j}] invalid")
