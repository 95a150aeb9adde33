"""Workload generators (every random choice comes from the given random.Random)."""

from __future__ import annotations

import glob
import os
import random

from . import ref
from .sut import REPO

# --- noise ---------------------------------------------------------------------------


def noise(rng: random.Random, n: int, kind: str | None = None) -> bytes:
    kind = kind or rng.choice(("uniform", "d3", "d3low", "nod3", "zero", "text", "pre"))
    if kind == "uniform":
        return rng.randbytes(n)
    if kind == "d3":
        return bytes(rng.choice((0xD3, 0xD3, 0, 1, 2, 3, rng.randrange(256))) for _ in range(n))
    if kind == "d3low":  # short false candidates: D3 00 xx
        out = bytearray()
        while len(out) < n:
            out += bytes((0xD3, 0, rng.randrange(0, 12))) + rng.randbytes(rng.randrange(0, 9))
        return bytes(out[:n])
    if kind == "nod3":
        return bytes(b if b != 0xD3 else 0xD2 for b in rng.randbytes(n))
    if kind == "zero":
        return bytes([rng.choice((0, 0xFF, 0xD3))]) * n
    if kind == "text":
        return (b"$GPGGA,123519,4807.038,N*47\r\n" * (n // 29 + 1))[:n]
    # "pre": false preambles with reserved bits set
    return bytes(rng.choice((0xD3, 0xD3, 0x04, 0x40, 0xFC, 0xD3)) for _ in range(n))


# --- values --------------------------------------------------------------------------


def field(rng: random.Random, width: int, kind: str, mode: str) -> int:
    """Transmitted integer of a field (signed kinds give signed values)."""
    if kind == "u":
        lo, hi = 0, (1 << width) - 1
    elif kind == "s":
        lo, hi = -(1 << (width - 1)), (1 << (width - 1)) - 1
    else:
        hi = (1 << (width - 1)) - 1
        lo = -hi
    if mode == "rand":
        return rng.randint(lo, hi)
    if mode == "edge":
        k = rng.randrange(8)
        if k < 5:
            return (lo, lo + 1 if lo < hi else hi, hi, max(lo, hi - 1), 0)[k]
        if k == 5:
            return max(lo, min(hi, 1 << rng.randrange(width)))
        if k == 6:
            return max(lo, min(hi, -(1 << rng.randrange(width))))
        return rng.randint(lo, hi)
    if mode == "small":
        return max(lo, min(hi, rng.randint(-3, 3)))
    raise ValueError(mode)


# --- MSM -----------------------------------------------------------------------------


def msm_time(rng, gnss, mode="any"):
    """'any': any 30-bit value, 'valid': inside the week"""
    if mode == "any":
        return rng.getrandbits(30)
    if gnss == "R":
        return (rng.randrange(7) << 27) | rng.randrange(0, ref.DAY)
    return rng.randrange(0, ref.WEEK)


def shape(rng, gnss, nsat=None, nsig=None, known=True, in_range=False):
    """Random satellites and signals with at most 64 cells."""
    pool = sorted(ref.SIGNALS[gnss]) if known else list(range(1, 33))
    smax = ref.MAX_SATS[gnss] if in_range else 64
    if nsig is None:
        nsig = rng.randint(1, min(len(pool), rng.choice((1, 2, 3, 4, 8, 32))))
    nsig = min(nsig, len(pool))
    if nsat is None:
        nsat = rng.randint(1, min(smax, 64 // nsig))
    nsat = min(nsat, smax, 64 // nsig)
    return (sorted(rng.sample(range(1, smax + 1), nsat)), sorted(rng.sample(pool, nsig)))


def cells_of(rng, sats, sigs, density=None):
    full = [(a, b) for a in sats for b in sigs]
    density = rng.choice((1.0, 0.8, 0.5, 0.2)) if density is None else density
    c = [x for x in full if rng.random() < density]
    return c or [rng.choice(full)]


def msm(rng, num, sats=None, sigs=None, cells=None, values="rand", time="any", known=True,
        in_range=False, valid=0.0, nsat=None, nsig=None) -> ref.Msm:
    """valid: probability that a marker value is replaced by an ordinary one."""
    m = ref.Msm()
    m.num = num
    m.gnss, m.n = ref.MSM_NUMBERS[num]
    if sats is None or sigs is None:
        a, b = shape(rng, m.gnss, nsat, nsig, known, in_range)
        sats = a if sats is None else sats
        sigs = b if sigs is None else sigs
    m.sats, m.sigs = list(sats), list(sigs)
    m.cells = list(cells) if cells is not None else (cells_of(rng, m.sats, m.sigs) if m.sats else [])
    m.hdr = {}
    for name, width in ref.HDR_FIELDS:
        if name:
            m.hdr[name] = field(rng, width, "u", "rand")
    m.hdr["time"] = time if isinstance(time, int) else msm_time(rng, m.gnss, time)
    mode = (lambda: rng.choice(("rand", "edge", "small"))) if values == "mix" else (lambda: values)
    m.sat = {n: [field(rng, w, k, mode()) for _ in m.sats] for n, w, k in ref.SAT_FIELDS[m.n]}
    m.sgn = {n: [field(rng, w, k, mode()) for _ in m.cells] for n, w, k in ref.SGN_FIELDS[m.n]}
    if valid:
        clean(rng, m, valid)
    return m


MARKERS = {"rng_ms": 255, "phase_rate_rough": -8192, "phase_rate_fine": -16384}


def marker(m: ref.Msm, name: str):
    if name in MARKERS:
        return MARKERS[name]
    hi = m.n >= 6
    if name == "rng_fine":
        return -(1 << 19) if hi else -(1 << 14)
    if name == "phase_fine":
        return -(1 << 23) if hi else -(1 << 21)
    return None


def clean(rng, m, p=1.0):
    for grp in (m.sat, m.sgn):
        for name, vals in grp.items():
            mk = marker(m, name)
            if mk is None:
                continue
            for i, v in enumerate(vals):
                if v == mk and rng.random() < p:
                    vals[i] = rng.randrange(0, 250)


def msm_frame(rng, m, reserved=None, pad=None) -> bytes:
    return ref.frame(ref.encode_msm(m, rng.getrandbits(7) if reserved is None else reserved,
                                    rng.getrandbits(7) if pad is None else pad))


# --- ephemeris -----------------------------------------------------------------------


def eph_payload(rng, num, values="rand") -> bytes:
    w = ref.BitWriter()
    w.put(num, 12)
    for _, kind, width, _ in ref.EPH_SPEC[num]:
        mode = values if values != "mix" else rng.choice(("rand", "edge", "small"))
        if mode == "rand":
            w.put(rng.getrandbits(width), width)
            continue
        v = field(rng, width, kind, mode)
        if kind == "m" and v < 0:
            v = (1 << (width - 1)) | -v
        w.put(v, width)
    return w.bytes(rng.getrandbits(7))


def eph_put(num, values: dict) -> bytes:
    """values: {index of the field in the layout: raw bits}"""
    w = ref.BitWriter()
    w.put(num, 12)
    for i, (_, _, width, _) in enumerate(ref.EPH_SPEC[num]):
        w.put(values.get(i, 0), width)
    return w.bytes()


# --- base station --------------------------------------------------------------------

TEXTS = ("", "A", "TRM59800.00     SCIS", "JAVRINGANT_DM", "NONE", "UTF-8 проверка wörter",
         "日本語テスト", "\u00e9" * 20, "x" * 31, "quote\"back\\slash/", "tab\tnew\nline\r", "\x00\x01\x7f",
         "[{\"a\": 1}]", "😀😀", "\u2028\u2029", "%d,%s{}",
         "\ufeffmarked", "mid\ufeffmark", "e\u0301\u212b", "  spaces around  ", "\u00a0nbsp\u00a0", "\r\n", "\u0085",
         "\U0010ffff", "\ufffd\u200b", "\\u0041", "null", "trailing\x00\x00", "\ue000\ud7ff")


def text(rng, maxlen=255) -> bytes:
    k = rng.randrange(8)
    if k == 0:
        b = b""
    elif k == 7:
        b = b"".join(bytes([rng.choice((0, 0, 9, 10, 32, 34, 92, 127, rng.randrange(128)))]) * rng.choice((1, 2, 3, 4, 9))
                     for _ in range(rng.randrange(1, 12)))
    elif k == 1:
        b = "".join(chr(rng.randrange(0x20, 0x7F)) for _ in range(rng.randrange(0, maxlen + 1))).encode()
    elif k == 2:
        b = "".join(rng.choice("aбвé日😀 \"\\,") for _ in range(rng.randrange(0, 60))).encode()
    elif k == 3:
        b = rng.choice(TEXTS).encode()
    elif k == 5:
        b = "".join(chr(rng.choice((rng.randrange(1, 0xD800), rng.randrange(0xE000, 0x110000), rng.randrange(0x80, 0x800))))
                    for _ in range(rng.randrange(0, 60))).encode()
    elif k == 4:
        b = bytes(rng.randrange(0, 128) for _ in range(rng.randrange(0, 64)))
    else:
        b = b"Z" * maxlen
    while len(b) > maxlen:
        b = b.decode("utf-8", "ignore")[:-1].encode()
    return b


def base_payload(rng, num, values="mix", texts=None, n1013=None, mask1230=None) -> bytes:
    w = ref.BitWriter()
    texts = list(texts) if texts is not None else None

    def f(width, kind="u"):
        mode = values if values != "mix" else rng.choice(("rand", "edge", "small"))
        w.put(field(rng, width, kind, mode), width)

    def s(maxlen=255):
        b = texts.pop(0) if texts is not None else text(rng, maxlen)
        w.put(len(b), 8)
        for c in b:
            w.put(c, 8)

    w.put(num, 12)
    f(12)
    if num in (1005, 1006):
        f(6)
        for _ in range(4):
            f(1)
        f(38, "s")
        f(1)
        f(1)
        f(38, "s")
        f(2)
        f(38, "s")
        if num == 1006:
            f(16)
    elif num in (1007, 1008, 1033):
        # 1033 may carry 5 strings: keep the sum below the frame limit
        lim = 190 if num == 1033 else 255
        s(lim)
        f(8)
        if num != 1007:
            s(lim)
        if num == 1033:
            s(lim)
            s(lim)
            s(lim)
    elif num == 1013:
        f(16)
        f(17)
        n = rng.choice((0, 1, 2, 31, rng.randrange(32))) if n1013 is None else n1013
        cnt = n if n else rng.choice((0, 1, 2, 5, 40, 200, 277))
        if isinstance(n1013, tuple):
            n, cnt = n1013
        w.put(n, 5)
        f(8)
        for i in rng.sample(range(4096), cnt):
            w.put(i, 12)
            f(1)
            f(16)
    elif num == 1029:
        f(16)
        f(17)
        f(7)
        s(255)
    elif num == 1230:
        f(1)
        f(3)
        mask = rng.getrandbits(4) if mask1230 is None else mask1230
        w.put(mask, 4)
        for _ in range(mask.bit_count()):
            f(16, "s")
    return w.bytes(rng.getrandbits(7))


# --- any -----------------------------------------------------------------------------


def good_frame(rng, num=None, mode_nums=None, time="any", values="mix", in_range=False) -> bytes:
    """A well-formed message (text of base messages valid UTF-8, known signals)."""
    if num is None:
        num = rng.choice(mode_nums or ref.ALL_NUMBERS)
    if num in ref.MSM_NUMBERS:
        if rng.random() < 0.03:
            return msm_frame(rng, msm(rng, num, sats=[], sigs=[], time=time))
        return msm_frame(rng, msm(rng, num, values=values, time=time, valid=rng.choice((0.0, 0.9, 1.0)),
                                  in_range=in_range, nsat=rng.choice((None, 1, 2, 3)),
                                  nsig=rng.choice((None, 1, 2))))
    if num in ref.EPH_NUMBERS:
        return ref.frame(eph_payload(rng, num, values))
    return ref.frame(base_payload(rng, num, values))


def foreign_frame(rng, num=None, n=None) -> bytes:
    """A frame of a number the converter does not support."""
    while num is None or num in ref.ALL_NUMBERS:
        num = rng.choice((rng.randrange(4096), 1001, 1004, 1012, 1057, 1070, 1078, 1138, 4095, 0, 1043))
    n = rng.choice((2, 3, 10, rng.randrange(2, 1024), 1023)) if n is None else n
    b = bytearray(rng.randbytes(n))
    b[0] = num >> 4
    b[1] = (num & 15) << 4 | b[1] & 15
    return ref.frame(bytes(b))


def bad_frame(rng, num=None) -> bytes:
    """A frame with a valid CRC and a supported number that must be rejected in every mode.

    Verified against the reference by the caller's oracle (loop until it is a REJECT).
    """
    while True:
        n = num or rng.choice(ref.ALL_NUMBERS)
        k = rng.randrange(5)
        pl = bytearray(ref.payload_of(good_frame(rng, n)))
        if k == 0 and len(pl) > 2:
            pl = pl[: rng.randrange(2, len(pl))]
        elif k == 1 and len(pl) < 1020 and n not in ref.EPH_NUMBERS:
            pl += rng.randbytes(rng.randrange(1, min(8, 1023 - len(pl)) + 1))
        elif k == 2 and n in ref.MSM_NUMBERS:
            # satellite mask bits 73..136, signal mask 137..168
            for _ in range(rng.randrange(1, 4)):
                b = rng.randrange(73, 169)
                if b >> 3 < len(pl):
                    pl[b >> 3] ^= 0x80 >> (b & 7)
        elif k == 3:
            pl = bytearray(rng.randbytes(rng.randrange(2, 60)))
            pl[0] = n >> 4
            pl[1] = (n & 15) << 4 | pl[1] & 15
        elif k == 4 and n in ref.MSM_NUMBERS:
            m = msm(rng, n, known=False, sats=sorted(rng.sample(range(1, 65), rng.randint(9, 64))),
                    sigs=sorted(rng.sample(range(1, 33), rng.randint(8, 32))), cells=[(1, 1)])
            pl = bytearray(ref.encode_msm(m))[:1023]
        else:
            continue
        frm = ref.frame(bytes(pl))
        r = ref.reference(frm)
        if r.num == n and r.bare_status == ref.REJECT and r.kind != "short":
            return frm


_rec = None


def recordings() -> dict[str, bytes]:
    """Recorded data of the repository."""
    global _rec
    if _rec is None:
        _rec = {}
        for p in sorted(glob.glob(os.path.join(REPO, "RTCM3_TEST_DATA", "**", "*.rtcm3"), recursive=True)):
            with open(p, "rb") as f:
                _rec[os.path.relpath(p, REPO)] = f.read()
    return _rec


def stream(rng, n, good=0.8, bad=0.1, foreign=0.1, gaps=0.15, nums=None, time="any", in_range=False) -> bytes:
    """n frames with garbage in between."""
    out = []
    for _ in range(n):
        if gaps and rng.random() < gaps:
            out.append(noise(rng, rng.choice((1, 2, 5, 40)), rng.choice(("uniform", "d3low", "nod3", "pre"))))
        x = rng.random() * (good + bad + foreign)
        if x < good:
            out.append(good_frame(rng, mode_nums=nums, time=time, in_range=in_range))
        elif x < good + bad:
            out.append(bad_frame(rng, rng.choice(nums) if nums else None))
        else:
            out.append(foreign_frame(rng))
    return b"".join(out)


# --- sessions: what a base station sends ----------------------------------------------


def _walk(rng, m, prev):
    """Values of the next epoch, continuing those of the previous one where the cell existed."""
    old_sat = {s: i for i, s in enumerate(prev.sats)} if prev else {}
    old_cell = {c: i for i, c in enumerate(prev.cells)} if prev else {}
    for name, w, k in ref.SAT_FIELDS[m.n]:
        for i, s in enumerate(m.sats):
            v = m.sat[name][i]
            if s in old_sat and name in prev.sat:
                v = prev.sat[name][old_sat[s]]
                if name == "rng_rough":
                    v = (v + rng.randrange(-3, 4)) % (1 << w)
                elif name == "phase_rate_rough" and rng.random() < .3:
                    v = max(-8191, min(8191, v + rng.randrange(-2, 3)))
            elif name == "rng_ms":
                v = rng.randint(64, 90)
            elif name == "phase_rate_rough":
                v = rng.randint(-800, 800)
            m.sat[name][i] = v
    for name, w, k in ref.SGN_FIELDS[m.n]:
        for i, c in enumerate(m.cells):
            if c not in old_cell or name not in prev.sgn:
                continue
            v = prev.sgn[name][old_cell[c]]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k == "s" else (0, (1 << w) - 1)
            if name in ("hc_indc", "c2n", "lock_time"):
                if rng.random() < .2:
                    v = field(rng, w, k, "rand")
            elif rng.random() < .9:
                v = max(lo, min(hi, v + rng.randrange(-9, 10)))
            else:
                v = field(rng, w, k, "rand")
            m.sgn[name][i] = v
    clean(rng, m, .9)


def flip(rng, frm: bytes) -> bytes:
    """The same message with one payload bit changed (not in its number)."""
    pl = bytearray(ref.payload_of(frm))
    b = rng.randrange(12, 8 * len(pl))
    pl[b >> 3] ^= 0x80 >> (b & 7)
    return ref.frame(bytes(pl))


def session(rng, epochs, gnss=None, eph=True, base=True, in_range=True, msm_only=False) -> list[bytes]:
    """Frames of a station: slowly changing observables of several constellations sharing signal codes, repeated and
    slightly changed ephemerides and base-station data, equal epochs, week and day roll-over."""
    gnss = gnss or rng.sample("GREBSQI", rng.choice((2, 3, 5, 7)))
    step = rng.choice((0, 200, 1000, 30000, 3600000))
    t = rng.choice((rng.randrange(ref.WEEK), ref.WEEK - 5 * max(step, 1), ref.WEEK - 20000))
    rs = rng.getrandbits(12)
    types = {g: rng.randint(1, 7) for g in gnss}
    known = {}
    for g in gnss:
        sats, sigs = shape(rng, g, nsat=rng.choice((None, 3, 8)), nsig=rng.choice((None, 2, 3)), in_range=in_range)
        known[g] = (sats, sigs, cells_of(rng, sats, sigs))
    last: dict = {}
    eph_nums = [n for n, g in ref.EPH_NUMBERS.items() if g in gnss] or sorted(ref.EPH_NUMBERS)
    ephs = [ref.frame(eph_payload(rng, rng.choice(eph_nums), rng.choice(("rand", "small", "mix")))) for _ in range(4)]
    bases = [ref.frame(base_payload(rng, n)) for n in rng.sample(ref.BASE_NUMBERS, 3)]
    out: list[bytes] = []
    for _ in range(epochs):
        t = (t + step) % ref.WEEK
        for g in rng.sample(gnss, len(gnss)) if rng.random() < .2 else gnss:
            x = rng.random()
            if x < .05:
                sats, sigs = shape(rng, g, nsat=rng.choice((None, 3, 8)), nsig=rng.choice((None, 2, 3)), in_range=in_range)
                known[g] = (sats, sigs, cells_of(rng, sats, sigs))
            elif x < .3:
                sats, sigs, _ = known[g]
                known[g] = (sats, sigs, cells_of(rng, sats, sigs))
            elif x < .33:
                types[g] = rng.randint(1, 7)
            num = ref.GNSS_BASE[g] + types[g]
            sats, sigs, cells = known[g]
            tm = ((t // ref.DAY) << 27) | t % ref.DAY if g == "R" else (t - 14000) % ref.WEEK if g == "B" else t
            m = msm(rng, num, sats=sats, sigs=sigs, cells=cells, time=tm, values="rand", valid=1.0)
            p = last.get(g)
            _walk(rng, m, p if p is not None and p.n == m.n else None)
            m.hdr["rs_id"] = rs
            last[g] = m
            f = msm_frame(rng, m)
            out.append(f)
            if rng.random() < .05:
                out.append(f)
        if msm_only:
            continue
        for pool, on in ((ephs, eph), (bases, base)):
            if on and rng.random() < .5:
                i = rng.randrange(len(pool))
                y = rng.random()
                num = ref.reference(pool[i]).num
                if y < .3 and (num in ref.EPH_NUMBERS or num in (1005, 1006)):
                    pool[i] = flip(rng, pool[i])
                elif y < .4:
                    pool[i] = ref.frame(eph_payload(rng, rng.choice(eph_nums))) if pool is ephs else \
                        ref.frame(base_payload(rng, rng.choice(ref.BASE_NUMBERS)))
                out.append(pool[i])
                if rng.random() < .15:
                    out.append(pool[i])
        if rng.random() < .02:
            rs = rng.getrandbits(12)
    return out
