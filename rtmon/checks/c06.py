"""C06: bare MSM."""
from .common import *
from . import msmwork

ID = "C06"
RULE = ("MSM1..7 messages of all seven constellations encoded bit by bit from known integers (every satellite and "
        "signal position, 64-cell shapes, single cells, walking bits through every field, random and extreme values, "
        "reserved/padding bits, no satellites), decoded in JSON-B mode and converted to JSON-B files; oracle: the "
        "encoded integers; non-trivial: every distinct frame")
MINIMUM = {"sessions": 30, "results_compared_bare": 8000, "conversions": 20}


REPEAT = 6


def jobs(tier, seed):
    for i in range(40 if tier == "quick" else 400):
        yield dict(kind="session", i=i, seed=seed)
    for num in sorted(ref.MSM_NUMBERS):
        yield dict(kind="sys", num=num, seed=seed)
        for i in range(1 if tier == "quick" else 15):
            yield dict(kind="rand", num=num, i=i, n=60 if tier == "quick" else 250, seed=seed)
    for i in range(24 if tier == "quick" else 200):
        yield dict(kind="file", i=i, seed=seed)


def run(spec, mon):
    rng = rng_of(ID, spec)
    if spec.get("kind") == "session":
        session_job(mon, rng, ("JSON-B",), ("json", "crash"), part="MSM", eph=False, base=False, in_range=False)
        return
    k = spec["kind"]
    if k == "file":
        fr = [gen.msm_frame(rng, gen.msm(rng, rng.choice(sorted(ref.MSM_NUMBERS)), known=False, values="mix",
                                         sats=[] if rng.random() < 0.05 else None,
                                         nsat=rng.choice((None, 2, 5)), nsig=rng.choice((None, 2))))
              for _ in range(40)]
        c = ref.Controls(hdr=True, aux=True, pretty=rng.random() < 0.5)
        convert_and_judge(mon, b"".join(fr), "JSON-B", c, aspects=("json", "crash"), label="file")
        for f in fr:
            mon.case(b"f" + f)
        return
    num = spec["num"]
    g = ref.MSM_NUMBERS[num][0]
    with converter("JSON-B") as conv:
        def go(m, label="", reserved=None, pad=None):
            f = gen.msm_frame(rng, m, reserved, pad)
            check_decode(mon, conv, "JSON-B", f, label)
            mon.sample({"number": num, "frame": f.hex()[:160], "satellites": m.sats, "signals": m.sigs,
                        "cells": len(m.cells)}, 1)

        if k == "rand":
            for _ in range(spec["n"]):
                go(gen.msm(rng, num, known=rng.random() < 0.3, values=rng.choice(("rand", "edge", "mix"))))
            return
        for sats, sigs in msmwork.shapes(g, False):
            go(gen.msm(rng, num, sats=sats, sigs=sigs), f"satellites {sats[:3]}.. signals {sigs[:3]}..")
        for m, label in msmwork.walking(num, rng.randrange(1, 33)):
            go(m, label)
        for m in msmwork.single_cells(rng, num, False):
            go(m, "single cell")
        m = gen.msm(rng, num)
        for r in list(range(7)) + [None]:
            go(m, "reserved bits", reserved=127 if r is None else 1 << r)
            go(m, "padding bits", pad=127 if r is None else 1 << r)
        for sigs in ([], [1], [2, 32], list(range(1, 33))):
            for pad in (0, 127):
                go(gen.msm(rng, num, sats=[], sigs=sigs), "no satellites", pad=pad)
