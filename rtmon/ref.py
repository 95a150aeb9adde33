"""Independent executable reference of RTCM 10403 framing, decoding and scaling.

Written from the standard (field tables DF001..DF543, MSM tables) and from the
repository's documentation of its products. Shares no code and no tables with /repo.
"""

from __future__ import annotations

# --- CRC-24Q -------------------------------------------------------------------------

POLY = 0x1864CFB


def crc24q_bitwise(data: bytes) -> int:
    crc = 0
    for byte in data:
        crc ^= byte << 16
        for _ in range(8):
            crc <<= 1
            if crc & 0x1000000:
                crc ^= POLY
    return crc & 0xFFFFFF


_TAB = [crc24q_bitwise(bytes([i])) for i in range(256)]


def crc24q(data: bytes) -> int:
    crc = 0
    tab = _TAB
    for byte in data:
        crc = ((crc & 0xFFFF) << 8) ^ tab[(crc >> 16) ^ byte]
    return crc


def frame(payload: bytes, second: int | None = None) -> bytes:
    """Wrap a payload (0..1023 bytes) into a transport frame."""
    n = len(payload)
    assert n <= 1023
    body = bytes([0xD3, (n >> 8) if second is None else second, n & 0xFF]) + payload
    return body + crc24q(body).to_bytes(3, "big")


def with_crc(payload: bytes, target: int, second: int | None = None) -> bytes:
    """A frame whose correct checksum is 'target': the last three payload bytes are chosen for it."""
    n = len(payload)
    head = bytes([0xD3, (n >> 8) if second is None else second, n & 0xFF]) + payload[:-3]
    c = target
    for _ in range(24):  # the register before the last 24 bits, backwards
        c = (c ^ POLY) >> 1 if c & 1 else c >> 1
    rv = frame(payload[:-3] + (c ^ crc24q(head)).to_bytes(3, "big"), second)
    assert rv[-3:] == target.to_bytes(3, "big")
    return rv


def payload_of(frm: bytes) -> bytes:
    return frm[3:-3]


def msg_number(frm: bytes) -> int:
    """First 12 bits after the frame header (of a payload shorter than that, CRC bits)."""
    return (frm[3] << 4) | (frm[4] >> 4)


# --- Frame scan ----------------------------------------------------------------------


class Scan:
    """Result of the left-to-right scan."""

    __slots__ = ("frames", "spans", "ends", "gaps", "hold")

    def __init__(self):
        self.frames: list[bytes] = []
        self.spans: list[tuple[int, int]] = []
        # number of stream bytes after which the frame is recognisable
        self.ends: list[int] = []
        # gaps[i]: True if bytes were skipped between frame i-1 and frame i (i > 0)
        self.gaps: list[bool] = []
        self.hold: int | None = None


def scan(data: bytes, flush: bool = False) -> Scan:
    """flush=False: stop at a candidate that is incomplete at the end of 'data'."""
    rv = Scan()
    pos, n = 0, len(data)
    last_end = None
    need = 0
    while True:
        pos = data.find(b"\xd3", pos)
        if pos < 0:
            break
        if pos + 1 >= n:
            if flush:
                break
            rv.hold = pos
            break
        if data[pos + 1] & 0xFC:
            need = max(need, pos + 2)
            pos += 1
            continue
        if pos + 3 > n:
            size = None
        else:
            size = (((data[pos + 1] & 3) << 8) | data[pos + 2]) + 6
        if size is None or pos + size > n:
            if flush:
                pos += 1
                continue
            rv.hold = pos
            break
        need = max(need, pos + size)
        body = data[pos : pos + size - 3]
        if crc24q(body) == int.from_bytes(data[pos + size - 3 : pos + size], "big"):
            rv.frames.append(data[pos : pos + size])
            rv.spans.append((pos, pos + size))
            rv.ends.append(need)
            rv.gaps.append(last_end is not None and last_end != pos)
            last_end = pos + size
            pos += size
        else:
            pos += 1
    return rv


def parse_errors(s: Scan, upto: int | None = None) -> int:
    return sum(s.gaps if upto is None else s.gaps[:upto])


# --- Bits ----------------------------------------------------------------------------


class Short(Exception):
    """Payload ends before the field."""


class BitReader:
    def __init__(self, payload: bytes):
        self.n = int.from_bytes(payload, "big")
        self.size = 8 * len(payload)
        self.pos = 0

    def u(self, width: int) -> int:
        end = self.pos + width
        if end > self.size:
            raise Short
        self.pos = end
        return (self.n >> (self.size - end)) & ((1 << width) - 1)

    def s(self, width: int) -> int:
        v = self.u(width)
        return v - (1 << width) if v >> (width - 1) else v

    def m(self, width: int) -> int:
        """Sign-magnitude"""
        v = self.u(width)
        top = 1 << (width - 1)
        return -(v - top) if v & top else v


class BitWriter:
    def __init__(self):
        self.n = 0
        self.size = 0

    def put(self, value: int, width: int):
        self.n = (self.n << width) | (value & ((1 << width) - 1))
        self.size += width

    def bytes(self, pad: int = 0) -> bytes:
        k = -self.size % 8
        n = (self.n << k) | (pad & ((1 << k) - 1))
        return n.to_bytes((self.size + k) // 8, "big")


# --- Approximate leaf values ---------------------------------------------------------


class Approx:
    __slots__ = ("v", "tol")

    def __init__(self, v, tol):
        self.v, self.tol = v, tol

    def ok(self, x) -> bool:
        return (
            isinstance(x, (int, float))
            and not isinstance(x, bool)
            and abs(x - self.v) <= self.tol
        )

    def __repr__(self):
        return f"~{self.v!r}(+-{self.tol:g})"


class HexText(Approx):
    """Bytes shown as hexadecimal numbers, whatever their width or letter case."""

    __slots__ = ()

    def __init__(self, raw: bytes):
        super().__init__(raw, 0)

    def ok(self, x) -> bool:
        try:
            parts = x.split(" ") if x else []
            return all(p[:2].lower() == "0x" for p in parts) and bytes(int(p, 16) for p in parts) == self.v
        except (AttributeError, ValueError):
            return False

    def __repr__(self):
        return repr(" ".join("0x%x" % x for x in self.v))


class _Any:
    def __repr__(self):
        return "<any>"


ANY = _Any()


def cmp(exp, got, path: str, out: list, limit: int = 6):
    """Compare a nested expectation with an observed value, append differences."""
    if len(out) >= limit or exp is ANY:
        return
    if isinstance(exp, Approx):
        if not exp.ok(got):
            out.append(f"{path}: expected {exp}, got {got!r}")
    elif isinstance(exp, bool):
        if got is not exp:
            out.append(f"{path}: expected {exp!r}, got {got!r}")
    elif isinstance(exp, int):
        if isinstance(got, bool) or not isinstance(got, (int, float)) or got != exp:
            out.append(f"{path}: expected {exp!r}, got {got!r}")
    elif isinstance(exp, str):
        if got != exp:
            out.append(f"{path}: expected {exp!r}, got {got!r}")
    elif isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(exp):
            out.append(f"{path}: expected {list(exp)!r:.200}, got {got!r:.200}")
            return
        for i, (a, b) in enumerate(zip(exp, got)):
            cmp(a, b, f"{path}[{i}]", out, limit)
    elif isinstance(exp, OptDict):
        if not isinstance(got, dict):
            out.append(f"{path}: expected an object, got {got!r:.200}")
            return
        for k in exp:
            if k in got:
                cmp(exp[k], got[k], f"{path}.{k}", out, limit)
            elif k not in exp.optional:
                out.append(f"{path}.{k}: missing, expected {exp[k]!r:.120}")
        for k in got:
            if k not in exp:
                out.append(f"{path}.{k}: unexpected {got[k]!r:.120}")
    elif isinstance(exp, dict):
        if not isinstance(got, dict):
            out.append(f"{path}: expected an object, got {got!r:.200}")
            return
        for k in exp:
            if k not in got:
                if isinstance(exp[k], OptDict) and all(x in exp[k].optional for x in exp[k]):
                    continue
                out.append(f"{path}.{k}: missing, expected {exp[k]!r:.120}")
            else:
                cmp(exp[k], got[k], f"{path}.{k}", out, limit)
        for k in got:
            if k not in exp:
                out.append(f"{path}.{k}: unexpected {got[k]!r:.120}")
    else:
        raise TypeError(f"bad expectation {exp!r}")


class OptDict(dict):
    """Dictionary with optional keys."""

    optional: set = set()


# --- Tables --------------------------------------------------------------------------

GNSS_BASE = {"G": 1070, "R": 1080, "E": 1090, "S": 1100, "Q": 1110, "B": 1120, "I": 1130}
GNSS_DIR = {"G": "GPS", "R": "GLN", "E": "GAL", "S": "SBS", "Q": "QZS", "B": "BDS", "I": "NAVIC"}
MAX_SATS = {"G": 32, "R": 24, "E": 36, "S": 38, "Q": 5, "B": 37, "I": 14}

MSM_NUMBERS = {b + i: (g, i) for g, b in GNSS_BASE.items() for i in range(1, 8)}
EPH_NUMBERS = {1019: "G", 1020: "R", 1041: "I", 1042: "B", 1044: "Q", 1045: "E", 1046: "E"}
BASE_NUMBERS = (1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230)
ALL_NUMBERS = tuple(sorted(list(MSM_NUMBERS) + list(EPH_NUMBERS) + list(BASE_NUMBERS)))

SIGNALS = {
    "G": {2: "1C", 3: "1P", 4: "1W", 8: "2C", 9: "2P", 10: "2W", 15: "2S", 16: "2L",
          17: "2X", 22: "5I", 23: "5Q", 24: "5X", 30: "1S", 31: "1L", 32: "1X"},
    "R": {2: "1C", 3: "1P", 8: "2C", 9: "2P"},
    "E": {2: "1C", 3: "1A", 4: "1B", 5: "1X", 6: "1Z", 8: "6C", 9: "6A", 10: "6B",
          11: "6X", 12: "6Z", 14: "7I", 15: "7Q", 16: "7X", 18: "8I", 19: "8Q", 20: "8X",
          22: "5I", 23: "5Q", 24: "5X"},
    "S": {2: "1C", 22: "5I", 23: "5Q", 24: "5X"},
    "Q": {2: "1C", 9: "6S", 10: "6L", 11: "6X", 15: "2S", 16: "2L", 17: "2X", 22: "5I",
          23: "5Q", 24: "5X", 30: "1S", 31: "1L", 32: "1X"},
    "B": {2: "2I", 3: "2Q", 4: "2X", 8: "6I", 9: "6Q", 10: "6X", 14: "7I", 15: "7Q", 16: "7X"},
    "I": {8: "9A", 22: "5A"},
}
# [MHz], constellation + band digit of the RINEX code
BAND = {
    "G1": 1575.42, "G2": 1227.60, "G5": 1176.45,
    "R1": 1602.0, "R2": 1246.0, "R3": 1202.025, "R4": 1600.995, "R6": 1248.06,
    "E1": 1575.42, "E5": 1176.45, "E6": 1278.75, "E7": 1207.14, "E8": 1191.795,
    "S1": 1575.42, "S5": 1176.45,
    "Q1": 1575.42, "Q2": 1227.60, "Q5": 1176.45, "Q6": 1278.75,
    "B1": 1575.42, "B2": 1561.098, "B5": 1176.45, "B6": 1268.52, "B7": 1207.14, "B8": 1191.795,
    "I5": 1176.45, "I9": 2492.028,
}


def carrier(gnss: str, lit: str) -> float:
    return BAND[gnss + lit[0]]


def tlock4(i: int) -> int:
    """DF402 -> minimum lock time [ms]"""
    return (0, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
            131072, 262144, 524288)[i]


# DF407 -> minimum lock time [ms]; rows of the standard's table: (first index, step, start)
def tlock10(i: int) -> int:
    if i < 64:
        return i
    if i == 704:
        return 67108864
    if i > 704:
        return 0
    start, step, first = 64, 2, 64
    while i >= first + 32:
        start += 32 * step
        step *= 2
        first += 32
    return start + step * (i - first)


CLK_STEER = ("OFF", "ON", "UNDEF", "UNDEF")
CLK_EXT = ("INTERNAL", "EXT-LOCK", "EXT-UNLOCK", "UNDEF")
SMTH_INDC = ("UNDEF", "DVRG-FREE")
SMTH_INTR = ("NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+", "UNLIM")

# --- MSM -----------------------------------------------------------------------------

# (name, width, kind)
_RR = ("rng_rough", 10, "u")
SAT_FIELDS = {
    1: (_RR,), 2: (_RR,), 3: (_RR,),
    4: (("rng_ms", 8, "u"), _RR),
    6: (("rng_ms", 8, "u"), _RR),
    5: (("rng_ms", 8, "u"), ("ext_info", 4, "u"), _RR, ("phase_rate_rough", 14, "s")),
    7: (("rng_ms", 8, "u"), ("ext_info", 4, "u"), _RR, ("phase_rate_rough", 14, "s")),
}
_R15, _P22, _L4 = ("rng_fine", 15, "s"), ("phase_fine", 22, "s"), ("lock_time", 4, "u")
_R20, _P24, _L10 = ("rng_fine", 20, "s"), ("phase_fine", 24, "s"), ("lock_time", 10, "u")
_HC, _C6, _C10 = ("hc_indc", 1, "u"), ("c2n", 6, "u"), ("c2n", 10, "u")
_PR = ("phase_rate_fine", 15, "s")
SGN_FIELDS = {
    1: (_R15,),
    2: (_P22, _L4, _HC),
    3: (_R15, _P22, _L4, _HC),
    4: (_R15, _P22, _L4, _HC, _C6),
    5: (_R15, _P22, _L4, _HC, _C6, _PR),
    6: (_R20, _P24, _L10, _HC, _C10),
    7: (_R20, _P24, _L10, _HC, _C10, _PR),
}
BARE_SAT_ALL = {False: ("rng_rough",), True: ("rng_ms", "ext_info", "rng_rough", "phase_rate_rough")}
BARE_SGN_ALL = {
    False: ("rng_fine", "phase_fine", "lock_time", "hc_indc"),
    True: ("rng_fine", "phase_fine", "lock_time", "hc_indc", "c2n", "phase_rate_fine"),
}
HDR_FIELDS = (
    ("rs_id", 12), ("time", 30), ("MMB", 1), ("IODS", 3), (None, 7), ("clk_steer", 2),
    ("clk_ext", 2), ("smth_indc", 1), ("smth_intr", 3),
)


class Msm:
    """Decoded MSM message (transmitted integers)."""

    __slots__ = ("num", "gnss", "n", "hdr", "sats", "sigs", "cells", "sat", "sgn")

    @property
    def tod(self):
        return self.hdr["time"] & 0x7FFFFFF if self.gnss == "R" else self.hdr["time"]

    @property
    def day(self):
        return (self.hdr["time"] >> 27) & 7 if self.gnss == "R" else 0

    @property
    def known_signals(self):
        return all(s in SIGNALS[self.gnss] for s in self.sigs)

    def lit(self, sig):
        return SIGNALS[self.gnss][sig]


def encode_msm(m: Msm, reserved: int = 0, pad: int = 0) -> bytes:
    """Payload of the message."""
    w = BitWriter()
    w.put(m.num, 12)
    for name, width in HDR_FIELDS:
        w.put(reserved if name is None else m.hdr[name], width)
    for i in range(1, 65):
        w.put(i in m.sats, 1)
    for i in range(1, 33):
        w.put(i in m.sigs, 1)
    if m.sats:
        cells = set(m.cells)
        for a in m.sats:
            for b in m.sigs:
                w.put((a, b) in cells, 1)
        for name, width, _ in SAT_FIELDS[m.n]:
            for v in m.sat[name]:
                w.put(v, width)
        for name, width, _ in SGN_FIELDS[m.n]:
            for v in m.sgn[name]:
                w.put(v, width)
    return w.bytes(pad)


def decode_msm(num: int, payload: bytes) -> Msm | None:
    """None: malformed."""
    m = Msm()
    m.num = num
    m.gnss, m.n = MSM_NUMBERS[num]
    r = BitReader(payload)
    try:
        r.u(12)
        m.hdr = {}
        for name, width in HDR_FIELDS:
            v = r.u(width)
            if name:
                m.hdr[name] = v
        mask = r.u(64)
        m.sats = [i + 1 for i in range(64) if mask >> (63 - i) & 1]
        mask = r.u(32)
        m.sigs = [i + 1 for i in range(32) if mask >> (31 - i) & 1]
        m.cells, m.sat, m.sgn = [], {}, {}
        if m.sats:
            if not m.sigs or len(m.sats) * len(m.sigs) > 64:
                return None
            for a in m.sats:
                for b in m.sigs:
                    if r.u(1):
                        m.cells.append((a, b))
            if not m.cells:
                return None
            for name, width, kind in SAT_FIELDS[m.n]:
                m.sat[name] = [getattr(r, kind)(width) for _ in m.sats]
            for name, width, kind in SGN_FIELDS[m.n]:
                m.sgn[name] = [getattr(r, kind)(width) for _ in m.cells]
    except Short:
        return None
    if (r.pos + 7) // 8 != len(payload):
        return None
    return m


def msm_bare(m: Msm) -> dict:
    """Expected content of the bare record: hdr, aux, sat, sgn."""
    big = m.n >= 4
    hdr = dict(m.hdr)
    hdr["sat_mask"] = sum(1 << (s - 1) for s in m.sats)
    hdr["sgn_mask"] = sum(1 << (s - 1) for s in m.sigs)
    hdr["cell_mask"] = 0
    if m.sats:
        cells = set(m.cells)
        i = 0
        for a in m.sats:
            for b in m.sigs:
                if (a, b) in cells:
                    hdr["cell_mask"] |= 1 << i
                i += 1
    return {
        "hdr": hdr,
        "aux": {"gnss": m.gnss, "subset": f"MSM{m.n}", "msg_number": m.num},
        "sat": {k: m.sat.get(k, ANY) for k in BARE_SAT_ALL[big]},
        "sgn": {k: m.sgn.get(k, ANY) for k in BARE_SGN_ALL[big]},
    }


C_NUM = 299792458  # light millisecond is C_NUM / 1000 m


def msm_scaled(m: Msm) -> dict:
    """Expected scaled record (hdr, aux, obs); signals must be known.

    obs: {kind: {literal: OptDict{sat: value}}}, only non-empty signals.
    """
    hi = m.n >= 6
    kinds = {k: {} for k in ("rng", "phs", "ltm", "hca", "dpl", "c2n")}

    def put(kind, lit, sat, value, optional=False):
        d = kinds[kind].setdefault(lit, OptDict())
        d[sat] = value
        if optional:
            if not d.optional:
                d.optional = set()
            d.optional.add(sat)

    idx = {s: i for i, s in enumerate(m.sats)}
    rs, ps = (29, 31) if hi else (24, 29)  # fine range / phase: 2**-rs, 2**-ps [ms]
    bad_r = -(1 << 19) if hi else -(1 << 14)
    bad_p = -(1 << 23) if hi else -(1 << 21)
    for k, (sat, sig) in enumerate(m.cells):
        i = idx[sat]
        lit = m.lit(sig)
        if m.n >= 4:
            rough_ok = m.sat["rng_ms"][i] != 255
            rough = m.sat["rng_ms"][i] * 1024 + m.sat["rng_rough"][i]
        else:
            rough_ok = True
            rough = m.sat["rng_rough"][i]
        range_bad = False
        if "rng_fine" in m.sgn:
            f = m.sgn["rng_fine"][k]
            range_bad = f == bad_r
            if rough_ok and not range_bad:
                v = ((rough << (rs - 10)) + f) * C_NUM / (1000 << rs)
                put("rng", lit, sat, Approx(v, 2e-7))
        if "phase_fine" in m.sgn:
            f = m.sgn["phase_fine"][k]
            opt = m.n == 3 and range_bad
            if rough_ok and f != bad_p:
                v = ((rough << (ps - 10)) + f) * C_NUM / (1000 << ps)
                put("phs", lit, sat, Approx(v, 2e-7), opt)
            if m.n >= 4 or f != bad_p:
                lt = m.sgn["lock_time"][k]
                put("ltm", lit, sat, tlock10(lt) if hi else tlock4(lt), opt)
                put("hca", lit, sat, m.sgn["hc_indc"][k] == 1, opt)
        if "phase_rate_fine" in m.sgn:
            f = m.sgn["phase_rate_fine"][k]
            r = m.sat["phase_rate_rough"][i]
            if f != -(1 << 14) and r != -(1 << 13):
                put("dpl", lit, sat, Approx((r * 10000 + f) / 10000, 1e-8))
        if "c2n" in m.sgn:
            v = m.sgn["c2n"][k]
            put("c2n", lit, sat, Approx(v / 16 if hi else v, 1e-9))
    h = m.hdr
    return {
        "hdr": {
            "signals": {m.lit(s): Approx(carrier(m.gnss, m.lit(s)), 1e-9) for s in m.sigs}
            if m.sats else ANY,
            "sats": list(m.sats),
            "time": m.tod,
            "day": m.day,
        },
        "aux": {
            "rs_id": h["rs_id"], "MMB": h["MMB"], "IODS": h["IODS"],
            "clk_steer": {"code": h["clk_steer"], "val": CLK_STEER[h["clk_steer"]]},
            "clk_ext": {"code": h["clk_ext"], "val": CLK_EXT[h["clk_ext"]]},
            "smth_indc": {"code": h["smth_indc"], "val": SMTH_INDC[h["smth_indc"]]},
            "smth_intr": {"code": h["smth_intr"], "val": SMTH_INTR[h["smth_intr"]]},
        },
        "obs": kinds,
    }


# --- Ephemeris -----------------------------------------------------------------------

P2 = lambda n: ("p", n)  # scale 2**n  # noqa: E731
I1 = ("i", 1)  # unscaled


def _i(n):
    return ("i", n)


# name, kind, width, scale; name None - reserved / not reported
EPH_SPEC = {
    1019: (  # DF009.. table 3.5-21
        ("satNum", "u", 6, I1), ("weekNum", "u", 10, I1), ("URA", "u", 4, I1),
        ("L2_Codes", "u", 2, I1), ("i_dot", "s", 14, P2(-43)), ("IODE", "u", 8, I1),
        ("tc", "u", 16, _i(16)), ("af2", "s", 8, P2(-55)), ("af1", "s", 16, P2(-43)),
        ("af0", "s", 22, P2(-31)), ("IODC", "u", 10, I1), ("crs", "s", 16, P2(-5)),
        ("delta_n", "s", 16, P2(-43)), ("m0", "s", 32, P2(-31)), ("cuc", "s", 16, P2(-29)),
        ("e", "u", 32, P2(-33)), ("cus", "s", 16, P2(-29)), ("sqrt_a", "u", 32, P2(-19)),
        ("te", "u", 16, _i(16)), ("cic", "s", 16, P2(-29)), ("omega0", "s", 32, P2(-31)),
        ("cis", "s", 16, P2(-29)), ("i0", "s", 32, P2(-31)), ("crc", "s", 16, P2(-5)),
        ("w", "s", 32, P2(-31)), ("omega_dot", "s", 24, P2(-43)), ("TGD", "s", 8, P2(-31)),
        ("SVH", "u", 6, I1), ("L2P_Data", "u", 1, I1), ("Fit", "u", 1, I1),
    ),
    1020: (
        ("satNum", "u", 6, I1), ("frqSloNum", "u", 5, ("o", -7)), ("Cn", "u", 1, I1),
        ("AlmHAI", "u", 1, I1), ("P1", "u", 2, I1), ("tk", "u", 12, ("tk", 0)),
        ("BnMSB", "u", 1, I1), ("P2", "u", 1, I1), ("tb", "u", 7, _i(900)),
        ("dotXn", "m", 24, P2(-20)), ("xn", "m", 27, P2(-11)), ("dotDotXn", "m", 5, P2(-30)),
        ("dotYn", "m", 24, P2(-20)), ("yn", "m", 27, P2(-11)), ("dotDotYn", "m", 5, P2(-30)),
        ("dotZn", "m", 24, P2(-20)), ("zn", "m", 27, P2(-11)), ("dotDotZn", "m", 5, P2(-30)),
        ("P3", "u", 1, I1), ("gamma_n", "m", 11, P2(-40)), ("P", "u", 2, I1),
        ("ln3", "u", 1, I1), ("tauN", "m", 22, P2(-30)), ("delta_tauN", "m", 5, P2(-30)),
        ("En", "u", 5, I1), ("P4", "u", 1, I1), ("Ft", "u", 4, I1), ("Nt", "u", 11, I1),
        ("M", "u", 2, I1), ("auxDataOK", "u", 1, I1), ("Na", "u", 11, I1),
        ("tauC", "m", 32, P2(-31)), ("N4", "u", 5, I1), ("tauGPS", "m", 22, P2(-30)),
        ("ln5", "u", 1, I1), (None, "u", 7, I1),
    ),
    1041: (
        ("satNum", "u", 6, I1), ("weekNum", "u", 10, I1), ("af0", "s", 22, P2(-31)),
        ("af1", "s", 16, P2(-43)), ("af2", "s", 8, P2(-55)), ("URA", "u", 4, I1),
        ("tc", "u", 16, _i(16)), ("TGD", "s", 8, P2(-31)), ("delta_n", "s", 22, P2(-41)),
        ("IODEC", "u", 8, I1), (None, "u", 10, I1), ("L5_Flag", "u", 1, I1),
        ("S_Flag", "u", 1, I1), ("cuc", "s", 15, P2(-28)), ("cus", "s", 15, P2(-28)),
        ("cic", "s", 15, P2(-28)), ("cis", "s", 15, P2(-28)), ("crc", "s", 15, P2(-4)),
        ("crs", "s", 15, P2(-4)), ("i_dot", "s", 14, P2(-43)), ("m0", "s", 32, P2(-31)),
        ("te", "u", 16, _i(16)), ("e", "u", 32, P2(-33)), ("sqrt_a", "u", 32, P2(-19)),
        ("omega0", "s", 32, P2(-31)), ("w", "s", 32, P2(-31)), ("omega_dot", "s", 22, P2(-41)),
        ("i0", "s", 32, P2(-31)), (None, "u", 2, I1), (None, "u", 2, I1),
    ),
    1042: (
        ("satNum", "u", 6, I1), ("weekNum", "u", 13, I1), ("URAI", "u", 4, I1),
        ("i_dot", "s", 14, P2(-43)), ("AODE", "u", 5, I1), ("tc", "u", 17, _i(8)),
        ("af2", "s", 11, P2(-66)), ("af1", "s", 22, P2(-50)), ("af0", "s", 24, P2(-33)),
        ("AODC", "u", 5, I1), ("crs", "s", 18, P2(-6)), ("delta_n", "s", 16, P2(-43)),
        ("m0", "s", 32, P2(-31)), ("cuc", "s", 18, P2(-31)), ("e", "u", 32, P2(-33)),
        ("cus", "s", 18, P2(-31)), ("sqrt_a", "u", 32, P2(-19)), ("te", "u", 17, _i(8)),
        ("cic", "s", 18, P2(-31)), ("omega0", "s", 32, P2(-31)), ("cis", "s", 18, P2(-31)),
        ("i0", "s", 32, P2(-31)), ("crc", "s", 18, P2(-6)), ("w", "s", 32, P2(-31)),
        ("omega_dot", "s", 24, P2(-43)), ("TGD1", "s", 10, ("d", 10)),
        ("TGD2", "s", 10, ("d", 10)), ("SVH", "u", 1, I1),
    ),
    1044: (
        ("satNum", "u", 4, I1), ("tc", "u", 16, _i(16)), ("af2", "s", 8, P2(-55)),
        ("af1", "s", 16, P2(-43)), ("af0", "s", 22, P2(-31)), ("IODE", "u", 8, I1),
        ("crs", "s", 16, P2(-5)), ("delta_n", "s", 16, P2(-43)), ("m0", "s", 32, P2(-31)),
        ("cuc", "s", 16, P2(-29)), ("e", "u", 32, P2(-33)), ("cus", "s", 16, P2(-29)),
        ("sqrt_a", "u", 32, P2(-19)), ("te", "u", 16, _i(16)), ("cic", "s", 16, P2(-29)),
        ("omega0", "s", 32, P2(-31)), ("cis", "s", 16, P2(-29)), ("i0", "s", 32, P2(-31)),
        ("crc", "s", 16, P2(-5)), ("w", "s", 32, P2(-31)), ("omega_dot", "s", 24, P2(-43)),
        ("i_dot", "s", 14, P2(-43)), ("L2_Codes", "u", 2, I1), ("weekNum", "u", 10, I1),
        ("URA", "u", 4, I1), ("SVH", "u", 6, I1), ("TGD", "s", 8, P2(-31)),
        ("IODC", "u", 10, I1), ("Fit", "u", 1, I1),
    ),
}
_GAL = (
    ("satNum", "u", 6, I1), ("weekNum", "u", 12, I1), ("IODnav", "u", 10, I1),
    ("SISA", "u", 8, I1), ("i_dot", "s", 14, P2(-43)), ("tc", "u", 14, _i(60)),
    ("af2", "s", 6, P2(-59)), ("af1", "s", 21, P2(-46)), ("af0", "s", 31, P2(-34)),
    ("crs", "s", 16, P2(-5)), ("delta_n", "s", 16, P2(-43)), ("m0", "s", 32, P2(-31)),
    ("cuc", "s", 16, P2(-29)), ("e", "u", 32, P2(-33)), ("cus", "s", 16, P2(-29)),
    ("sqrt_a", "u", 32, P2(-19)), ("te", "u", 14, _i(60)), ("cic", "s", 16, P2(-29)),
    ("omega0", "s", 32, P2(-31)), ("cis", "s", 16, P2(-29)), ("i0", "s", 32, P2(-31)),
    ("crc", "s", 16, P2(-5)), ("w", "s", 32, P2(-31)), ("omega_dot", "s", 24, P2(-43)),
    ("E5a_BGD", "s", 10, P2(-32)),
)
EPH_SPEC[1045] = _GAL + (("E5a_SHS", "u", 2, I1), ("E5a_DVS", "u", 1, I1), (None, "u", 7, I1))
EPH_SPEC[1046] = _GAL + (
    ("E5b_BGD", "s", 10, P2(-32)), ("E5b_SHS", "u", 2, I1), ("E5b_DVS", "u", 1, I1),
    ("E1_SHS", "u", 2, I1), ("E1_DVS", "u", 1, I1), (None, "u", 2, I1),
)
EPH_BITS = {n: 12 + sum(f[2] for f in s) for n, s in EPH_SPEC.items()}
assert EPH_BITS == {1019: 488, 1020: 360, 1041: 482, 1042: 511, 1044: 485, 1045: 496, 1046: 504}


def _scale(v: int, sc):
    kind, p = sc
    if kind == "i":
        return v * p
    if kind == "p":
        x = v * 2.0**p
        return Approx(x, abs(x) * 1e-13)
    if kind == "d":
        x = v / 10**p
        return Approx(x, abs(x) * 1e-12)
    if kind == "o":
        return v + p
    if kind == "tk":
        return 3600 * (v >> 7) + 60 * ((v >> 1) & 63) + 30 * (v & 1)
    raise ValueError(kind)


def decode_eph(num: int, payload: bytes):
    """(bare, scaled) or None"""
    r = BitReader(payload)
    bare, scaled = {"msgNum": num}, {"msgNum": num}
    try:
        r.u(12)
        for name, kind, width, sc in EPH_SPEC[num]:
            v = getattr(r, kind)(width)
            if name:
                bare[name] = v
                scaled[name] = _scale(v, sc)
    except Short:
        return None
    return bare, scaled


# --- Base station --------------------------------------------------------------------

QC = ("UNDEF", "CORRECTED", "NOT CORRECTED", "RESERVED")


def _len(v: int) -> Approx:
    x = v / 10000
    return Approx(x, abs(x) * 1e-12 + 1e-12)


class NotText(Exception):
    """Field is not UTF-8"""


def decode_base(num: int, payload: bytes):
    """(bare, scaled) or None. scaled is None when the text is not UTF-8."""
    r = BitReader(payload)
    b, s = {}, {}
    bad_text = False

    def both(k, v):
        b[k] = v
        s[k] = v

    def text(nlen, name):
        nonlocal bad_text
        n = r.u(8)
        both(nlen, n)
        chars(n, name)

    def chars(n, name):
        nonlocal bad_text
        raw = bytes(r.u(8) for _ in range(n))
        b[name] = HexText(raw)
        try:
            s[name] = raw.decode("utf-8")
        except UnicodeDecodeError:
            bad_text = True

    try:
        both("msgNum", r.u(12))
        both("bsID", r.u(12))
        if num in (1005, 1006):
            both("ITRF_Year", r.u(6))
            for k in ("GPS_OK", "GLO_OK", "GAL_OK", "isVirtual"):
                b[k] = r.u(1)
                s[k] = b[k] == 1
            b["refPoint_X"] = r.s(38)
            b["singleOsc"] = r.u(1)
            s["singleOsc"] = b["singleOsc"] == 1
            r.u(1)
            b["refPoint_Y"] = r.s(38)
            b["QC_bias"] = r.u(2)
            s["QC_bias"] = QC[b["QC_bias"]]
            b["refPoint_Z"] = r.s(38)
            for k in "XYZ":
                s["refPoint_" + k] = _len(b["refPoint_" + k])
            if num == 1006:
                b["height"] = r.u(16)
                s["height"] = _len(b["height"])
        elif num in (1007, 1008, 1033):
            text("descrLength", "descr")
            both("setupID", r.u(8))
            if num != 1007:
                text("serialNumberLength", "serialNumber")
            if num == 1033:
                text("rcvDescriptorLength", "rcvDescriptor")
                text("rcvFWVersionLength", "rcvFWVersion")
                text("rcvSerNumLength", "rcvSerNum")
        elif num == 1013:
            both("modifiedJulianDay", r.u(16))
            both("daySec", r.u(17))
            both("Nm", r.u(5))
            both("leapSec", r.u(8))
            n = b["Nm"] or (8 * len(payload) - 70) // 29
            b["shedule"], s["shedule"] = {}, {}
            for _ in range(n):
                i, f, p = r.u(12), r.u(1), r.u(16)
                if i in b["shedule"]:  # announced twice, not judged
                    b["shedule"][i] = s["shedule"][i] = ANY
                    continue
                b["shedule"][i] = [f, p]
                s["shedule"][i] = [f == 1, Approx(p / 10, 1e-9)]
        elif num == 1029:
            both("modifiedJulianDay", r.u(16))
            both("daySec", r.u(17))
            both("charNum", r.u(7))
            both("unitsNum", r.u(8))
            chars(b["unitsNum"], "message")
        elif num == 1230:
            b["isCorrected"] = r.u(1)
            s["isCorrected"] = b["isCorrected"] == 1
            r.u(3)
            mask = r.u(4)
            b["validity"], s["validity"], b["correction"], s["correction"] = {}, {}, {}, {}
            for k, name in enumerate(("1C", "1P", "2C", "2P")):
                on = mask >> (3 - k) & 1
                v = r.s(16) if on else 0
                b["validity"][name], s["validity"][name] = on, on == 1
                b["correction"][name] = v
                s["correction"][name] = (
                    ANY if v == -32768 else Approx(v / 50, abs(v) * 1e-12 + 1e-12)
                )
        else:
            raise ValueError(num)
    except Short:
        return None
    if (r.pos + 7) // 8 != len(payload):
        return None
    return b, (None if bad_text else s)


# --- Any message ---------------------------------------------------------------------

OK, REJECT, OPEN = "ok", "reject", "open"  # OPEN: outcome is not specified


class Result:
    """What must come out of one frame."""

    __slots__ = ("num", "kind", "bare_status", "scaled_status", "bare", "scaled", "msm", "frame")

    def __repr__(self):
        return f"<{self.num} {self.bare_status}/{self.scaled_status}>"


def reference(frm: bytes) -> Result:
    rv = Result()
    rv.frame = frm
    rv.num = num = msg_number(frm)
    pl = payload_of(frm)
    rv.kind = rv.bare = rv.scaled = rv.msm = None
    rv.bare_status = rv.scaled_status = REJECT
    if len(pl) < 2:
        # the number itself would be made of CRC bits
        rv.kind = "none" if num not in ALL_NUMBERS else "short"
        return rv
    if num in MSM_NUMBERS:
        rv.kind = "MSM"
        m = decode_msm(num, pl)
        if m is not None:
            rv.msm = m
            rv.bare, rv.bare_status = msm_bare(m), OK
            if m.known_signals:
                rv.scaled, rv.scaled_status = msm_scaled(m), OK
            elif not m.sats:
                rv.scaled_status = OPEN
    elif num in EPH_NUMBERS:
        rv.kind = "EPH"
        d = decode_eph(num, pl)
        if d is not None:
            rv.bare, rv.scaled = d
            longer = len(pl) != (EPH_BITS[num] + 7) // 8
            rv.bare_status = rv.scaled_status = OPEN if longer else OK
    elif num in BASE_NUMBERS:
        rv.kind = "BASE"
        d = decode_base(num, pl)
        if d is not None:
            rv.bare, rv.scaled = d
            rv.bare_status = OK
            rv.scaled_status = OK if rv.scaled is not None else OPEN
    else:
        rv.kind = "none"
    return rv


SOURCE_TYPE = {
    1019: "EphGPS", 1020: "EphGLO", 1041: "EphNAVIC", 1042: "EphBDS", 1044: "EphQZS",
    1045: "EphGALF", 1046: "EphGALI", 1005: "BaseRP", 1006: "BaseRPH", 1007: "BaseAD",
    1008: "BaseADSN", 1013: "BaseSP", 1029: "BaseTS", 1033: "BaseADSNRC", 1230: "BaseGLBS",
}
_BASE_FILE = {
    1005: "RefPoint", 1006: "RefPointHeight", 1007: "AntDesc", 1008: "AntDescSer",
    1013: "SysPar", 1029: "TextStr", 1033: "AntAndRcvDesc", 1230: "GloBias",
}


def source_type(num: int, bare: bool) -> str:
    if num in MSM_NUMBERS:
        if not bare:
            return "ObservablesMSM"
        return "BareObservablesMSM4567" if MSM_NUMBERS[num][1] >= 4 else "BareObservablesMSM123"
    return SOURCE_TYPE[num]


def json_path(num: int) -> str:
    if num in MSM_NUMBERS:
        g, n = MSM_NUMBERS[num]
        return f"MSM{n}/{GNSS_DIR[g]}-MSM{n}-{num}.json"
    if num in EPH_NUMBERS:
        return f"EPH/{GNSS_DIR[EPH_NUMBERS[num]]}-EPH-{num}.json"
    return f"BASE/{_BASE_FILE[num]}-{num}.json"


def supported(mode: str, num: int) -> bool:
    if num in MSM_NUMBERS:
        return True
    return mode != "MARGO" and (num in EPH_NUMBERS or num in BASE_NUMBERS)


# --- MARGO ---------------------------------------------------------------------------

WEEK = 604800000
DAY = 86400000
MARGO_FMT = {"C": (15, 3), "L": (15, 4), "D": (15, 3), "S": (15, 2), "T": (10, 3), "A": (4, 0)}
MARGO_ID = {"C": 0, "L": 1, "D": 2, "S": 3, "T": 4, "A": 5}
DEFAULT_LITERALS = dict(zip(range(1, 25), (1, -4, 5, 6, 1, -4, 5, 6, -2, -7, 0, -1, -2, -7, 0, -1,
                                          4, -3, 3, 2, 4, -3, 3, 2)))


class Controls:
    """Option values"""

    def __init__(self, hca=False, lock=False, utc=18, lit=None, hdr=True, aux=True, pretty=True):
        self.hca, self.lock, self.utc = hca, lock, utc
        self.lit = dict(DEFAULT_LITERALS if lit is None else lit)
        self.hdr, self.aux, self.pretty = hdr, aux, pretty

    def describe(self):
        return dict(hca=self.hca, lock=self.lock, utc=self.utc, hdr=self.hdr, aux=self.aux,
                    pretty=self.pretty, lit=[self.lit[i] for i in range(1, 25)])

    def ini(self) -> str:
        b = lambda x: "true" if x else "false"  # noqa: E731
        s = f"[MARGO]\nHCA = {b(self.hca)}\nLOCK_TIME = {b(self.lock)}\n"
        s += f"[JSON]\nENABLE_PRETTY_VIEW = {b(self.pretty)}\nENABLE_HDR_DATA = {b(self.hdr)}\n"
        s += f"ENABLE_AUX_DATA = {b(self.aux)}\n[TIME]\nGPS2UTC : {self.utc}\n[LITERALS]\n"
        return s + "".join(f"R{i} : {self.lit[i]}\n" for i in range(1, 25))


def gps_time(m: Msm, utc: int):
    """GPS time of week [ms], or ANY when the transmitted epoch is out of range."""
    if m.gnss == "R":
        if m.day > 6 or m.tod >= DAY + 1000:
            return ANY
        return (m.day * DAY + m.tod - 3 * 3600000 + utc * 1000) % WEEK
    if m.tod >= WEEK:
        return ANY
    if m.gnss == "B":
        return (m.tod + 14000) % WEEK
    return m.tod


def margo_carriers(gnss: str, lit: str, c: Controls) -> list[float]:
    f = carrier(gnss, lit)
    n = MAX_SATS[gnss]
    if gnss != "R":
        return [f] * n
    step = 0.5625 if lit[0] == "1" else 0.4375
    return [f + step * c.lit[i] for i in range(1, n + 1)]


def margo_rows(m: Msm, scaled: dict, c: Controls):
    """[(path, type, literal, time, {sat: Approx|int|ANY})]; ANY - value or NaN."""
    rv = []
    g = m.gnss
    t = gps_time(m, c.utc)
    for kind, letter in (("rng", "C"), ("phs", "L"), ("dpl", "D"), ("c2n", "S"), ("ltm", "T"), ("hca", "A")):
        if letter == "T" and not c.lock or letter == "A" and not c.hca:
            continue
        half = 0.5 * 10.0 ** -MARGO_FMT[letter][1]
        for lit, obs in scaled["obs"][kind].items():
            frq = margo_carriers(g, lit, c)
            row = {}
            for sat, v in obs.items():
                if sat > MAX_SATS[g]:
                    continue
                if letter == "C":
                    x = v.v
                elif letter == "L":
                    if not c.hca and scaled["obs"]["hca"][lit][sat]:
                        continue
                    x = v.v * frq[sat - 1] * 1e6 / C_NUM
                elif letter == "D":
                    x = -v.v * frq[sat - 1] * 1e6 / C_NUM
                elif letter == "S":
                    x = v.v
                elif letter == "T":
                    x = v / 1000
                else:
                    x = 1 if v else 0
                a = Approx(x, half * 1.0001 + abs(x) * 1e-14 + 1e-5 * (letter in "CL"))
                if sat in obs.optional:
                    row[sat] = (a,)  # value or NaN
                else:
                    row[sat] = a
            all_optional = bool(obs) and all(s in obs.optional for s in obs)
            path = f"{GNSS_DIR[g]}/{g}{letter}{lit}_MSM{m.n}.obs"
            rv.append((path, letter, lit, t, row, all_optional))
    return rv
