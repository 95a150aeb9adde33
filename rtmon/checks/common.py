"""Shared pieces of the checks."""

from __future__ import annotations

import contextlib
import random

from .. import gen, judge, ref, sut


def rng_of(*parts) -> random.Random:
    return random.Random("-".join(str(p) for p in parts))


@contextlib.contextmanager
def converter(mode="JSON", c=None):
    """A converter of the code under test with a scratch product folder."""
    with sut.scratch() as d:
        conv = sut.new_converter(mode, d, c)
        try:
            yield conv
        finally:
            with contextlib.suppress(Exception):
                conv.release()


def hexs(b: bytes, n=64) -> str:
    return b[:n].hex() + ("..." if len(b) > n else "")


def check_decode(mon, conv, mode, frm, label="", also_sig=True):
    """decode() of one frame against the reference."""
    r = ref.reference(frm)
    got = conv.decode(frm)
    st = judge.status(r, mode)
    mon.case(mode.encode() + frm if also_sig else None)
    if st == ref.OPEN:
        mon.count("open_outcomes")
        return got
    if st == ref.REJECT:
        mon.count("rejections_seen")
        if got is not None:
            mon.fail(f"{mode}: malformed or unsupported message {r.num} gave a result {label}",
                     frm.hex())
        return got
    if got is None:
        mon.fail(f"{mode}: well-formed message {r.num} gave no result {label}", frm.hex())
        return got
    diffs = judge.cmp_result(r, mode, sut.plain(got))
    mon.count(f"results_compared_{'bare' if mode == 'JSON-B' else 'scaled'}")
    if diffs:
        mon.fails_of(diffs, frm.hex(), f"{mode} message {r.num} {label}: ")
    return got


def convert_and_judge(mon, data, mode, c=None, aspects=(), label="", detail=None, part=None, **kw):
    """Full conversion of 'data' by main(), report the chosen aspects."""
    ini = None if c is None else c.ini()
    conv = sut.convert(data, mode, ini=ini, **kw)
    diffs, e = judge.judge_conversion(conv, data, mode, c or ref.Controls())
    mon.count("conversions")
    mon.count("product_files", sum(v is not None for v in conv.files.values()))
    if part:  # JSON differences of the products in folder 'part*' only
        diffs = [(a, t) for a, t in diffs if not a.startswith("json") or part in t]
    bad = judge.only(diffs, *aspects)
    if bad:
        mon.fails_of(bad, detail if detail is not None else data.hex()[:200000], f"{mode} {label}: ")
    return conv, e


def split_random(rng, data, mean):
    out, i = [], 0
    while i < len(data):
        n = max(0, int(rng.expovariate(1 / mean)))
        if rng.random() < 0.05:
            out.append(b"")
        out.append(data[i:i + n])
        i += n
    return out


__all__ = ["rng_of", "converter", "hexs", "check_decode", "convert_and_judge", "session_job", "split_random",
           "gen", "judge", "ref", "sut"]


def session_job(mon, rng, modes, aspects, epochs=None, c=None, part=None, **kw):
    """A station session through main(); reports the chosen aspects."""
    from .c12 import rand_controls
    fr = gen.session(rng, epochs or rng.randrange(8, 40), **kw)
    data = b"".join(fr)
    mode = rng.choice(modes)
    c = c or rand_controls(rng)
    conv, e = convert_and_judge(mon, data, mode, c, aspects=aspects, label=f"session {c.describe()}", part=part)
    mon.count("sessions")
    mon.count("session_messages", len(fr))
    mon.case((mode, c.describe(), data))
    return conv, e, mode, c
