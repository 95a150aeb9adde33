"""C20: decoding does not depend on history."""
import copy

from .. import pristine
from .common import *
from .c12 import payload

ID = "C20"
RULE = ("message pools of all types (well-formed, malformed, unsupported, random payloads, same masks with other values) decoded "
        "in random histories of one converter, in station sessions, in families of nearly equal messages, interleaved with other converters of all modes, printing and feeding; every "
        "result is compared with that of a fresh converter in a process that never decoded anything, every earlier result is kept and compared with its first snapshot "
        "at the end, results are scribbled over to reveal sharing; non-trivial: a message decoded after at least one other")
MINIMUM = {"decodings_compared": 20000, "held_results": 10000, "converters": 200, "scribbled": 1000, "sessions": 10, "near_families": 100}


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for mode in sut.MODES:
        for i in range(10 * k):
            yield dict(kind="history", mode=mode, i=i, seed=seed)
        for i in range(6 * k):
            yield dict(kind="pairs", mode=mode, i=i, seed=seed)
            yield dict(kind="session", mode=mode, i=i, seed=seed)
            yield dict(kind="near", mode=mode, i=i, seed=seed)
    for i in range(30):
        yield dict(kind="sats", i=i, seed=seed)
    for i in range(8 * k):
        yield dict(kind="interleave", i=i, seed=seed)
        yield dict(kind="long", i=i, n=4000 if tier == "quick" else 30000, seed=seed)


def fresh(mode, frm):
    """Runs in a process in which nothing was decoded before."""
    with converter(mode) as c:
        return snap(c.decode(frm))


def alone(mode, frames):
    """{frame: its result in a fresh converter of a fresh process}"""
    frames = list(dict.fromkeys(frames))
    return dict(zip(frames, pristine.calls("rtmon.checks.c20", "fresh", [(mode, f) for f in frames])))


def snap(x):
    return None if x is None else (type(x).__name__, copy.deepcopy(sut.plain(x)))


def pool(rng, n):
    out = []
    while len(out) < n:
        x = rng.random()
        if x < .6:
            f = gen.good_frame(rng, time="valid")
        elif x < .7:
            f = gen.bad_frame(rng)
        elif x < .75:
            f = gen.foreign_frame(rng)
        elif x < .85:
            f = ref.frame(payload(rng, rng.choice(ref.ALL_NUMBERS), rng.randrange(2, 100)))
        else:  # same masks, other values
            num = rng.choice(sorted(ref.MSM_NUMBERS))
            g = ref.MSM_NUMBERS[num][0]
            same = [k for k, (gg, _) in ref.MSM_NUMBERS.items() if gg == g]
            a, b = gen.shape(rng, g)
            for q in rng.sample(same, 3):
                out.append(gen.msm_frame(rng, gen.msm(rng, q, sats=a, sigs=b, values=rng.choice(("rand", "edge")))))
            continue
        out.append(f)
        if x < .6 and rng.random() < .25:  # nearly the same message
            out.append(gen.flip(rng, f))
    return out


def scribble(x):
    """Overwrite everything mutable inside a result."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)) or hasattr(x[k], "__slots__"):
                scribble(x[k])
            else:
                x[k] = "scribbled"
        x["extra"] = "scribbled"
        return
    if isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                scribble(v)
            else:
                x[i] = "scribbled"
        x.append("scribbled")
        return
    names = []
    for t in type(x).__mro__:
        s = getattr(t, "__slots__", ())
        names += [s] if isinstance(s, str) else list(s)
    names += list(getattr(x, "__dict__", {}))
    for n in names:
        v = getattr(x, n, None)
        if isinstance(v, (dict, list)) or (hasattr(v, "__slots__") and not isinstance(v, (str, int, float, tuple, bytes))):
            scribble(v)
        else:
            try:
                setattr(x, n, "scribbled")
            except (AttributeError, TypeError):
                pass


class History:
    def __init__(self, mon, mode, detail):
        self.mon, self.mode, self.detail = mon, mode, detail
        self.held = []
        self.seen = []

    def step(self, conv, frm, want, label=""):
        x = conv.decode(frm)
        got = snap(x)
        self.mon.count("decodings_compared")
        self.mon.case((self.mode, frm, self.seen[-1] if self.seen else b"") if self.seen else None)
        self.seen.append(frm)
        if got != want:
            self.mon.fail(f"{self.mode}: message {ref.msg_number(frm)} decoded {label} differs from a fresh converter "
                          f"(step {len(self.seen)})", [f.hex() for f in self.seen[-40:]])
            return None
        if x is not None:
            self.held.append((x, got))
        return x

    def finish(self):
        for i, (x, was) in enumerate(self.held):
            self.mon.count("held_results")
            if snap(x) != was:
                self.mon.fail(f"{self.mode}: a result was altered by later decoding ({i + 1} of {len(self.held)}, {was[0]})",
                              [f.hex() for f in self.seen[-40:]])
                return


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "history":
        mode = spec["mode"]
        fr = pool(rng, 40)
        want = alone(mode, fr)
        mon.count("converters", len(fr))
        for rep in range(3):
            h = History(mon, mode, None)
            with converter(mode) as conv:
                for _ in range(80):
                    f = rng.choice(fr)
                    for _ in range(rng.choice((1, 1, 1, 2, 3))):
                        x = h.step(conv, f, want[f], "in a history")
                        if x is not None and rng.random() < .5:
                            conv.print(x)
                    if rng.random() < .1:
                        conv.parse_bytes(rng.choice(fr)[:rng.randrange(1, 30)])
                h.finish()
            mon.sample({"mode": mode, "messages": [ref.msg_number(f) for f in h.seen[:12]], "held": len(h.held)}, 1)
    elif k == "pairs":
        # message after itself, after its relatives, after a scribbled result
        mode = spec["mode"]
        nums = [n for n in ref.ALL_NUMBERS if ref.supported(mode, n)]
        for num in rng.sample(nums, 20):
            a, b = gen.good_frame(rng, num), gen.good_frame(rng, num)
            bad = gen.bad_frame(rng, num)
            want = alone(mode, (a, b, bad))
            mon.count("converters", 3)
            for seq in ((a, a), (a, b, a), (bad, a, bad, a), (b, bad, bad, a, b)):
                h = History(mon, mode, None)
                with converter(mode) as conv:
                    for f in seq:
                        h.step(conv, f, want[f], f"in {len(seq)} steps")
                    h.finish()
            h = History(mon, mode, None)
            with converter(mode) as conv:
                for f in (a, b, a, b):
                    x = h.step(conv, f, want[f], "after an earlier result was overwritten")
                    h.held.clear()
                    if x is not None:
                        scribble(x)
                        mon.count("scribbled")
    elif k == "session":
        # what a station sends, once in order and once with earlier messages repeated in between
        mode = spec["mode"]
        fr = gen.session(rng, rng.randrange(20, 50), in_range=rng.random() < .5)
        want = alone(mode, fr)
        mon.count("converters", len(want))
        for rep in range(2):
            h = History(mon, mode, None)
            with converter(mode) as conv:
                for i, f in enumerate(fr):
                    h.step(conv, f, want[f], "in a session")
                    if rep and i and rng.random() < .3:
                        g = fr[rng.randrange(i)]
                        h.step(conv, g, want[g], "repeated in a session")
                h.finish()
        mon.count("sessions")
    elif k == "near":
        # messages that differ from an earlier one in very few bits: only one field, only one byte, only the length
        mode = spec["mode"]
        nums = [n for n in ref.ALL_NUMBERS if ref.supported(mode, n)]
        for num in rng.sample(nums, 12):
            a = gen.good_frame(rng, num)
            fam = [a]
            for _ in range(14):
                f = gen.flip(rng, rng.choice(fam))
                for _ in range(rng.choice((0, 0, 1, 3))):
                    f = gen.flip(rng, f)
                fam.append(f)
            want = alone(mode, fam)
            mon.count("converters", len(want))
            h = History(mon, mode, None)
            with converter(mode) as conv:
                for f in fam + rng.choices(fam, k=30):
                    h.step(conv, f, want[f], "after nearly equal ones")
                h.finish()
            mon.count("near_families")
    elif k == "sats":
        # several messages of every satellite (station, epoch): all results are held to the end
        mode = ("JSON", "JSON-B")[spec["i"] % 2]
        nums = [n for n in ref.ALL_NUMBERS if n not in ref.MSM_NUMBERS]
        num = nums[spec["i"] // 2 % len(nums)]
        fr = []
        for first in range(64):
            for _ in range(3):
                f = gen.good_frame(rng, num)
                if num in ref.EPH_NUMBERS:  # the satellite number follows the message number
                    p = bytearray(ref.payload_of(f))
                    p[1] = p[1] & 0xF0 | first >> 2
                    p[2] = p[2] & 0x3F | (first & 3) << 6
                    f = ref.frame(bytes(p))
                fr.append(f)
        rng.shuffle(fr)
        want = alone(mode, fr)
        mon.count("converters", len(want))
        h = History(mon, mode, None)
        with converter(mode) as conv:
            for f in fr + rng.sample(fr, 60):
                h.step(conv, f, want[f], "after others of its satellite")
            h.finish()
    elif k == "interleave":
        convs = []
        with sut.scratch() as d:
            import os
            for i in range(8):
                mode = sut.MODES[i % 4]
                p = os.path.join(d, str(i))
                os.mkdir(p)
                convs.append((mode, sut.new_converter(mode, p), History(mon, mode, None)))
            mon.count("converters", 8)
            fr = pool(rng, 30)
            want = {m: alone(m, fr) for m in sut.MODES}
            for _ in range(500):
                mode, conv, h = rng.choice(convs)
                f = rng.choice(fr)
                x = h.step(conv, f, want[mode][f], "beside other converters")
                if x is not None and rng.random() < .3:
                    conv.print(x)
            for _, conv, h in convs:
                h.finish()
                conv.release()
    else:
        mode = sut.MODES[spec["i"] % 4]
        fr = pool(rng, 60)
        want = alone(mode, fr)
        h = History(mon, mode, None)
        with converter(mode) as conv:
            for i in range(spec["n"]):
                f = rng.choice(fr)
                h.step(conv, f, want[f], "in a long history")
                if len(h.held) > 600:
                    del h.held[rng.randrange(100, 500)]
            h.finish()
