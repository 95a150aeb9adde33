"""MSM workloads shared by C06, C07, C08."""
from .common import *


def zero(num, sats, sigs, cells=None, fill=0):
    """A message with all fields equal to 'fill' bits (0 or all ones)."""
    m = ref.Msm()
    m.num = num
    m.gnss, m.n = ref.MSM_NUMBERS[num]
    m.sats, m.sigs = list(sats), list(sigs)
    m.cells = list(cells) if cells is not None else [(a, b) for a in sats for b in sigs]
    m.hdr = {n: fill and (1 << w) - 1 for n, w in ref.HDR_FIELDS if n}
    one = lambda w, k: 0 if not fill else (-1 if k == "s" else (1 << w) - 1)  # noqa: E731
    m.sat = {n: [one(w, k)] * len(m.sats) for n, w, k in ref.SAT_FIELDS[m.n]}
    m.sgn = {n: [one(w, k)] * len(m.cells) for n, w, k in ref.SGN_FIELDS[m.n]}
    return m


def signed(v, w, k):
    return v - (1 << w) if k == "s" and v >> (w - 1) else v


def shapes(gnss, known):
    """Satellite/signal sets that exercise mask positions and the 64-cell limit."""
    pool = sorted(ref.SIGNALS[gnss]) if known else list(range(1, 33))
    out = []
    for s in range(1, 65):
        out.append(([s], [pool[s % len(pool)]]))
    for g in pool:
        out.append(([1 + g % 64], [g]))
    for nsig in sorted({1, 2, 3, 4, 5, 7, 8, 16, 32, len(pool)}):
        if nsig > len(pool):
            continue
        nsat = 64 // nsig
        out.append((list(range(1, nsat + 1)), pool[:nsig]))
        out.append((list(range(65 - nsat, 65)), pool[-nsig:]))
        out.append((list(range(1, 65))[:: max(1, 64 // nsat)][:nsat], pool[:nsig]))
    return out


def walking(num, known_sig):
    """One satellite and signal; every bit of every field set alone, and cleared alone."""
    sat, sig = 5, known_sig
    for fill in (0, 1):
        for name, w in ref.HDR_FIELDS:
            if not name:
                continue
            for b in range(w):
                m = zero(num, [sat], [sig], fill=fill)
                m.hdr[name] ^= 1 << b
                yield m, f"{name} bit {b}"
        for grp, fields in (("sat", ref.SAT_FIELDS), ("sgn", ref.SGN_FIELDS)):
            for name, w, k in fields[ref.MSM_NUMBERS[num][1]]:
                for b in range(w):
                    m = zero(num, [sat, sat + 1], [sig], fill=fill)
                    raw = getattr(m, grp)[name][1] & ((1 << w) - 1)
                    getattr(m, grp)[name][1] = signed(raw ^ (1 << b), w, k)
                    yield m, f"{name} bit {b}"


def single_cells(rng, num, known):
    """8x8 (or as large as possible) masks with each cell alone, and each cell missing."""
    g = ref.MSM_NUMBERS[num][0]
    pool = sorted(ref.SIGNALS[g]) if known else list(range(1, 33))
    sigs = sorted(rng.sample(pool, min(8, len(pool))))
    sats = sorted(rng.sample(range(1, 65), 64 // len(sigs)))
    full = [(a, b) for a in sats for b in sigs]
    for c in full:
        yield gen.msm(rng, num, sats=sats, sigs=sigs, cells=[c], values="rand", valid=1.0)
    for c in rng.sample(full, 16):
        yield gen.msm(rng, num, sats=sats, sigs=sigs, cells=[x for x in full if x != c], values="rand", valid=1.0)
