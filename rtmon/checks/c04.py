"""C04: CRC-24Q."""
from .common import *

ID = "C04"
RULE = ("byte strings (all single bytes, impulses at every position of strings up to 1100 bytes, random, structured) "
        "whose checksum is compared with a bitwise CRC-24Q; and frames altered by every single-bit error, bit pairs, "
        "odd patterns, bursts up to 24 bits, byte swaps and wrong checksums, and intact frames with distinguished checksums (0, FFFFFF, D3....), fed to parse_bytes followed by an intact "
        "frame; non-trivial: every string and altered frame")
MINIMUM = {"checksums": 4000, "altered_frames": 5000, "intact_accepted": 5000, "special_checksums": 500}
EXHAUSTIVE = "all 256 one-byte strings; every single-bit error of frames with payloads of 0..40 bytes; for thorough also 1023"


REPEAT = 6


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for i in range(4 * k):
        yield dict(kind="again", i=i, seed=seed)
    yield dict(kind="table", seed=seed)
    for i in range(8 * k):
        yield dict(kind="strings", i=i, n=300, seed=seed)
    for i in range(8):
        yield dict(kind="impulse", i=i, seed=seed)
    for lo in range(0, 40, 5):
        yield dict(kind="single", lo=lo, hi=lo + 5, seed=seed)
    for i in range(8 * k):
        yield dict(kind="single_big", i=i, full=tier != "quick", seed=seed)
    for i in range(8):
        yield dict(kind="special", i=i, step=8 if tier == "quick" else 1, seed=seed)
    for i in range(16 * k):
        yield dict(kind="errors", i=i, n=300, seed=seed)


def crc(data):
    return sut.load()["util"].CRC24Q.calc(data)


def check(mon, data, want=None):
    want = ref.crc24q(data) if want is None else want
    got = crc(data)
    mon.count("checksums")
    mon.case(data)
    if got != want:
        mon.fail(f"checksum of {len(data)} bytes is {got!r}, CRC-24Q is {want:#08x}", data.hex())


class Feeder:
    """Feeds altered frames, each followed by an intact one."""

    def __init__(self, mon, conv, rng):
        self.mon, self.conv, self.rng = mon, conv, rng
        self.i = 0

    def intact(self, good: bytes):
        mon = self.mon
        data = good + bytes(1100)
        got = [bytes(x) for x in self.conv.parse_bytes(data)]
        mon.count("intact_accepted")
        mon.count("special_checksums")
        mon.case(good)
        if got != ref.scan(data).frames or got[:1] != [good]:
            mon.fail(f"an intact frame of {len(good)} bytes with checksum {good[-3:].hex()} was not delivered", good.hex())

    def altered(self, bad: bytes, what: str):
        mon = self.mon
        self.i += 1
        good = ref.frame(b"\x00\x00" + self.i.to_bytes(4, "big"))
        data = bad + bytes(1100) + good
        want = ref.scan(data).frames
        got = [bytes(x) for x in self.conv.parse_bytes(data)]
        mon.count("altered_frames")
        mon.case(bad)
        if bad in got:
            mon.fail(f"a corrupted frame was delivered ({what})", bad.hex())
        elif got != want:
            mon.fail(f"after a corrupted frame ({what}) {len(got)} frames delivered, expected {len(want)}", data.hex())
        else:
            mon.count("intact_accepted")


def outside_length(i):
    """Bit positions 14..23 hold the length."""
    return not 14 <= i < 24


def flip(frm, bits):
    b = bytearray(frm)
    for i in bits:
        b[i >> 3] ^= 0x80 >> (i & 7)
    return bytes(b)


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "table":
        check(mon, b"", 0)
        for i in range(256):
            check(mon, bytes([i]), ref.crc24q_bitwise(bytes([i])))
            check(mon, bytes([0xD3, i, 0]), ref.crc24q_bitwise(bytes([0xD3, i, 0])))
        check(mon, b"123456789", 0xCDE703)
        mon.sample({"string": "123456789", "crc": hex(crc(b"123456789"))})
    elif k == "strings":
        for _ in range(spec["n"]):
            n = rng.choice((1, 2, 3, 4, 5, 8, 100, rng.randrange(1100), rng.randrange(5000)))
            d = rng.choice((rng.randbytes(n), gen.noise(rng, n), bytes(n), b"\xff" * n,
                            bytes(n) + rng.randbytes(3), rng.randbytes(3) + bytes(n)))
            check(mon, d, ref.crc24q_bitwise(d))
    elif k == "impulse":
        # bytes that make every table entry appear at every position modulo 1100
        for n in range(spec["i"], 1100, 8):
            b = bytearray(n + 1)
            b[rng.randrange(n + 1)] = 1 << rng.randrange(8)
            check(mon, bytes(b))
            b[0] = rng.randrange(256)
            check(mon, bytes(b))
    else:
        with converter("JSON") as conv:
            fd = Feeder(mon, conv, rng)
            if k == "again":  # after the intact frame itself
                for n in [3, 20, 30, 40, 60, 100, 255, 400, 1023] + [rng.randrange(1024) for _ in range(20)]:
                    f = ref.frame(rng.randbytes(n))
                    fd.intact(f)
                    pos = [i for i in range(8 * len(f)) if outside_length(i)]
                    for _ in range(12):
                        fd.altered(flip(f, [rng.choice(pos)]), "one bit of a frame accepted before")
                        fd.altered(flip(f, rng.sample(pos, 2)), "two bits of a frame accepted before")
                    fd.intact(f)
            elif k == "single":
                for n in range(spec["lo"], spec["hi"]):
                    f = ref.frame(rng.randbytes(n))
                    mon.sample({"frame": f.hex(), "errors": "every single bit outside the length field"})
                    for i in range(8 * len(f)):
                        if outside_length(i):
                            fd.altered(flip(f, [i]), f"bit {i}")
            elif k == "special":  # distinguished checksums, right and wrong
                lens = sorted({0, 1, 2, 3, 4, 5, 250, 253, 255, 256, 509, 512, 1017, 1020, 1021, 1022, 1023}
                              | set(range(spec["i"], 1024, spec["step"] * 8)))
                for n in lens:
                    pl = rng.randbytes(n)
                    f = ref.frame(pl)
                    crc_ = int.from_bytes(f[-3:], "big")
                    for c in {0, 0xFFFFFF, 1, 0x800000, 0xD30000, 0xD300D3, 0x864CFB, 0x123456 ^ n, crc_ ^ 0xFFFFFF, crc_ ^ 0x864CFB,
                              int.from_bytes(f[-3:], "little"), n, n + 3, n + 6, crc_ >> 8, crc_ & 0xFFFF, ref.crc24q(pl),
                              ref.crc24q(f[1:-3]), ref.crc24q(f[2:-3])} - {crc_}:
                        fd.altered(f[:-3] + c.to_bytes(3, "big"), f"checksum {c:#08x} of a frame of {n + 6} bytes")
                    if n >= 3:
                        for c in (0, 0xFFFFFF, 1, 0x800000, 0xD30000, 0xD3, 0x00D300, 0x7FFFFF, 0xFFFF, 0xFF0000):
                            fd.intact(ref.with_crc(pl, c))
                        rnd = rng.getrandbits(24)
                        for c in (0, 0xFFFFFF, rnd & 0xFF0000, rnd & 0xFFFF00, rnd & 0xFFFF, rnd & 0xFF, rnd | 0xFFFF, rnd | 0xFF0000):
                            f = ref.with_crc(pl, c)  # the right checksum is distinguished and a wrong one is received
                            for w in {0, 0xFFFFFF, 1, 0x800000, c ^ 1, c ^ 0xFF, c ^ 0xFF0000, c & 0xFFFF, c & 0xFF0000, c >> 8,
                                      rng.getrandbits(24)} - {c}:
                                fd.altered(f[:-3] + w.to_bytes(3, "big"), f"checksum {w:#08x} instead of {c:#08x}")
            elif k == "single_big":
                f = ref.frame(rng.randbytes(rng.choice((1023, 1022, 1021, 512, 256, 255, 200, 700))))
                pos = [i for i in range(8 * len(f)) if outside_length(i)]
                pos = pos if spec["full"] else sorted({*rng.sample(pos, 60), *pos[-24:], *pos[:20]})
                for i in pos:
                    fd.altered(flip(f, [i]), f"bit {i}")
                for _ in range(60):
                    fd.altered(flip(f, rng.sample(pos, 2)), "two bits")
            else:
                for _ in range(spec["n"]):
                    n = rng.choice((0, 1, 2, 10, 60, rng.randrange(300)))
                    f = ref.frame(rng.randbytes(n))
                    pos = [i for i in range(8 * len(f)) if outside_length(i)]
                    x = rng.randrange(7)
                    if x == 0:
                        fd.altered(flip(f, rng.sample(pos, 2)), "two bits")
                    elif x == 1:
                        fd.altered(flip(f, rng.sample(pos, rng.choice((3, 5, 7, 9, 15, 31)))), "odd number of bits")
                    elif x == 2:
                        w = rng.randrange(1, 25)
                        s = rng.randrange(24, 8 * len(f) - w + 1) if 8 * len(f) - w > 24 else 24
                        bits = [s, s + w - 1] + [s + j for j in range(w) if rng.random() < 0.5]
                        bits = sorted({b for b in bits if b < 8 * len(f)})
                        fd.altered(flip(f, bits), f"burst of {w} bits")
                    elif x == 3 and len(f) > 7:
                        i, j = rng.sample(range(3, len(f)), 2)
                        b = bytearray(f)
                        b[i], b[j] = b[j], b[i]
                        if bytes(b) != f:
                            fd.altered(bytes(b), "swapped bytes")
                    elif x == 4:
                        b = f[:-3] + ((int.from_bytes(f[-3:], "big") + rng.choice((1, -1, 256, 65536, 0x800000))) & 0xFFFFFF).to_bytes(3, "big")
                        fd.altered(b, "wrong checksum")
                    elif x == 5:
                        c = rng.choice((bytes(3), b"\xff\xff\xff", f[-3:][::-1], rng.randbytes(3)))
                        if c != f[-3:]:
                            fd.altered(f[:-3] + c, "wrong checksum")
                    else:
                        for ch in range(3):
                            b = bytearray(f)
                            b[-1 - ch] ^= rng.randrange(1, 256)
                            fd.altered(bytes(b), f"checksum byte {2 - ch}")
