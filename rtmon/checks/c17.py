"""C17: JARGO = MARGO + JSON."""
import os

from .common import *
from .c12 import rand_controls, content

ID = "C17"
RULE = ("the same random stream (station sessions, all message types, damaged and unsupported messages, garbage, recordings) converted in MARGO, "
        "JSON and JARGO mode under the same random options; the three trees are compared byte by byte, and JARGO (and the other "
        "modes) repeated in the same folder; non-trivial: inputs giving both observables and EPH/BASE products")
MINIMUM = {"conversions": 200, "files_compared": 2000, "repetitions": 60}


REPEAT = 4


def jobs(tier, seed):
    k = 1 if tier == "quick" else 15
    for i in range(40 * k):
        yield dict(kind="stream", i=i, seed=seed)
    for i in range(4 * k):
        for kind in ("mutated", "supported", "frames"):
            yield dict(kind=kind, i=i, seed=seed)
    for i in range(20 * k):
        yield dict(kind="session", i=i, seed=seed)
    for i in range(12 * k):
        yield dict(kind="repeat", i=i, seed=seed)
    for p in range(len(gen.recordings())):
        yield dict(kind="recording", p=p, seed=seed)


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "repeat":
        return repeat(spec, mon, rng)
    if k == "recording":
        rec = gen.recordings()
        data = rec[sorted(rec)[spec["p"]]][:150000]
    elif k == "session":
        data = b"".join(gen.session(rng, rng.randrange(8, 50)))
    elif k == "stream":
        data = gen.stream(rng, rng.randrange(1, 90), good=.9, bad=rng.choice((0, .1)), foreign=.05, gaps=rng.choice((0, .1)))
    else:
        data = content(spec, rng)
    c = rand_controls(rng)
    ini = c.ini()
    t = {m: sut.convert(data, m, ini=ini) for m in ("MARGO", "JSON", "JARGO")}
    mon.count("conversions", 3)
    for m, x in t.items():
        if x.exc is not None:
            mon.fail(f"{m}: main() raised {x.exc!r}", data.hex())
            return
        if x.outside:
            mon.fail(f"{m}: wrote outside its folder: {x.outside}", data.hex())
    want = {p: v for p, v in t["MARGO"].files.items() if v is not None}
    base = {p: v for p, v in t["JSON"].files.items() if v is not None and p.split(os.sep)[0] in ("EPH", "BASE")}
    mon.case((c.describe(), data) if want and base else None)
    want.update(base)
    got = {p: v for p, v in t["JARGO"].files.items() if v is not None}
    mon.count("files_compared", len(want))
    mon.sample({"bytes": len(data), "obs": len(want) - len(base), "json": len(base)}, 1)
    for p in sorted(set(want) | set(got)):
        if p not in got:
            mon.fail(f"JARGO lacks {p}", data.hex())
        elif p not in want:
            mon.fail(f"JARGO has an extra product {p}", data.hex())
        elif got[p] != want[p]:
            i = next((i for i, (a, b) in enumerate(zip(got[p], want[p])) if a != b), -1)
            mon.fail(f"JARGO {p} differs from the {'MARGO' if p.endswith('.obs') else 'JSON'} product at byte {i}", data.hex())


def repeat(spec, mon, rng):
    """Converting again, in the same folder, with other runs in between."""
    data = gen.stream(rng, rng.randrange(5, 60), bad=.05, gaps=.05)
    other = gen.stream(rng, 20)
    c = rand_controls(rng)
    with sut.scratch() as d:
        with open(os.path.join(d, "defaults.ini"), "w", encoding="utf-8") as f:
            f.write(c.ini())
        src, oth = os.path.join(d, "a.rtcm3"), os.path.join(d, "b.rtcm3")
        for p, v in ((src, data), (oth, other)):
            with open(p, "wb") as f:
                f.write(v)
        for mode in ("JARGO", "MARGO", "JSON", "JSON-B"):
            first = None
            for n in range(3):
                info = sut.run_main(d, ["-o", mode, src])
                if info.exc is not None:
                    mon.fail(f"{mode}: main() raised {info.exc!r}", data.hex())
                    return
                t = {p: v for p, v in sut.tree(os.path.join(d, f"a-{mode}")).items() if not p.endswith("-log.txt")}
                mon.count("repetitions")
                if first is None:
                    first = t
                elif t != first:
                    bad = sorted(p for p in set(t) | set(first) if t.get(p) != first.get(p))
                    mon.fail(f"{mode}: run {n + 1} of the same file differs in {bad[:3]}", data.hex())
                if n == 0:
                    sut.run_main(d, ["-o", rng.choice(sut.MODES), oth])
            mon.case((mode, data))
