"""MARGO workloads."""
from .common import *
from .c12 import rand_controls


def message(rng, num, style, time="valid"):
    """One MSM frame of the given style."""
    g, n = ref.MSM_NUMBERS[num]
    top = ref.MAX_SATS[g]
    pool = sorted(ref.SIGNALS[g])
    kw = dict(time=time, values=rng.choice(("rand", "mix", "edge", "small")), valid=1.0)
    if style == "beyond":  # satellites the product has no column for
        k = rng.randint(1, 3)
        sats = sorted(rng.sample(range(top + 1, 65), min(k, 64 - top)))
        if rng.random() < .5:
            sats = sorted(set(sats + rng.sample(range(1, top + 1), min(2, top))))
        m = gen.msm(rng, num, sats=sats, sigs=sorted(rng.sample(pool, min(len(pool), 2))), **kw)
    elif style == "borders":
        m = gen.msm(rng, num, sats=sorted({1, top, rng.randint(1, top)}), sigs=sorted(rng.sample(pool, min(len(pool), 3))), **kw)
    elif style == "wide":
        ns = rng.randint(1, min(64, len(pool)))
        m = gen.msm(rng, num, nsig=ns, **kw)
    elif style == "full":
        m = gen.msm(rng, num, sats=list(range(1, min(top, 64) + 1)), sigs=[rng.choice(pool)], **kw)
    elif style == "invalid":
        m = gen.msm(rng, num, in_range=True, **kw)
        for grp in (m.sat, m.sgn):
            for name, vals in grp.items():
                mk = gen.marker(m, name)
                if mk is not None:
                    p = rng.choice((0, .3, .7, 1))
                    for i in range(len(vals)):
                        if rng.random() < p:
                            vals[i] = mk
    elif style == "unknown":  # signals without a RINEX code beside known ones
        other = [x for x in range(1, 33) if x not in ref.SIGNALS[g]]
        sigs = sorted(set(rng.sample(pool, min(len(pool), 2)) + rng.sample(other, 2)))
        m = gen.msm(rng, num, sigs=sigs, sats=sorted(rng.sample(range(1, top + 1), min(3, top))), **kw)
    elif style == "empty":
        m = gen.msm(rng, num, sats=[], sigs=[], time=time)
    else:
        m = gen.msm(rng, num, in_range=True, **kw)
        if style == "hca" and "hc_indc" in m.sgn:
            m.sgn["hc_indc"] = [rng.randrange(2) for _ in m.cells]
    return gen.msm_frame(rng, m), m


STYLES = ("plain", "plain", "beyond", "borders", "wide", "full", "invalid", "hca", "hca", "empty")


def known(frm, mode="MARGO"):
    return judge.status(ref.reference(frm), mode) == ref.OK
