"""C27: components plugged into the decoder and the printer."""
import traceback

from .common import *

ID = "C27"
RULE = ("decoders and printers assembled from recording stand-in components (random subsets of the declared numbers or types "
        "actually implemented, answers of the right type, of a wrong type, none, and exceptions of many kinds) and from the real "
        "ones, in random combinations and registration orders, driven with random messages and results; every call a component "
        "receives is recorded and compared with what the declarations require, with the returned object and the statistics; "
        "improper components offered in between; non-trivial: every message or result offered to an assembly with components")
MINIMUM = {"messages_routed": 20000, "contained_failures": 3000, "results_routed": 10000, "print_failures": 1000,
           "improper_refused": 500, "real_components": 2000}

SUBSETS = ("MSM13O", "MSM47O", "EPH", "BASE")


REPEAT = 12


def jobs(tier, seed):
    k = 1 if tier == "quick" else 15
    for i in range(24 * k):
        yield dict(kind="decoder", i=i, seed=seed)
        yield dict(kind="printer", i=i, seed=seed)
    for i in range(8 * k):
        yield dict(kind="real", i=i, seed=seed)
    yield dict(kind="factory", seed=seed)
    for i in range(3 * k):
        yield dict(kind="streak", i=i, seed=seed)


def numbers(subset):
    if subset == "EPH":
        return set(ref.EPH_NUMBERS)
    if subset == "BASE":
        return set(ref.BASE_NUMBERS)
    lo = subset == "MSM13O"
    return {n for n, (_, m) in ref.MSM_NUMBERS.items() if (m <= 3) == lo}


class Odd(Exception):
    """An exception the library cannot know."""


FAILURES = (ValueError("x"), AssertionError("y"), KeyError("k"), IndexError(), ZeroDivisionError("z"), Odd(), OSError(5, "o"),
            AttributeError("a"), RuntimeError(), TypeError("t"), MemoryError(), UnicodeDecodeError("utf-8", b"x", 0, 1, "u"),
            AssertionError(), Exception(), Exception(None), Exception(5, ()), StopIteration(), RecursionError("r"), "own", "own text")


class Component:
    """Stand-in sub-decoder."""

    def __init__(self, rng, subset, bare):
        self.rng = rng
        self.subset = subset
        self.calls = []
        self.io = sut.load()["dec"].SubDecoderInterface(subset, bare)
        every = sorted(numbers(subset))
        self.real = set(rng.sample(every, rng.randint(1, len(every)))) if rng.random() < .6 else set(every)
        self.io.actual_messages = set(self.real)
        if rng.random() < .3:
            self.io.actual_messages |= {4000, 1, 1019, 1077, 1005} - set(every)  # beyond the declared subset
        self.io.decode = self.decode
        self.plan = None

    def decode(self, buf):
        self.calls.append(buf)
        if self.plan in ("own", "own text"):  # the exception class offered for the purpose
            raise sut.load()["dec"].ExceptionDecoderDecode(*self.plan.split()[1:])
        if isinstance(self.plan, BaseException):
            raise self.plan
        return self.plan


def namesake(tp):
    """An object of an unrelated class which bears the same name."""
    return type(tp.__name__, (), {})()


def other(rng, tp):
    """A result of another message."""
    gt = sut.load()["types"]
    names = [n for n in ("EphGPS", "EphGLO", "EphBDS", "EphQZS", "BaseRP", "BaseAD", "BaseTS", "ObservablesMSM", "BareObservablesMSM123",
                         "BareObservablesMSM4567")
             if not issubclass(getattr(gt, n), tp)]
    return getattr(gt, rng.choice(names))()


def improper(mon, rng, top):
    """Components that must be refused."""
    dec = sut.load()["dec"]
    before = dict(getattr(top, "decoders", {}))
    io = dec.SubDecoderInterface(rng.choice(SUBSETS))
    k = rng.randrange(3)
    if k == 0:
        io = rng.choice((None, 5, object(), "EPH", dec.SubDecoderInterface))
    elif k == 1:
        io.actual_messages = {1077}  # decode not defined
    else:
        io.decode = lambda b: None
        io.actual_messages = set()
    ok = top.register_decoder(io)
    mon.count("improper_refused", not ok)
    if ok or dict(getattr(top, "decoders", {})) != before:
        mon.fail(f"an improper sub-decoder (kind {k}) was registered", k)


def frame_of(rng, num):
    b = bytearray(rng.randbytes(rng.randrange(2, 40)))
    b[0] = num >> 4
    b[1] = (num & 15) << 4 | b[1] & 15
    return ref.frame(bytes(b))


def decoder(spec, mon, rng):
    dec = sut.load()["dec"]
    for _ in range(10):
        top = dec.DecoderTop()
        bare = rng.random() < .5
        comps = [Component(rng, s, bare) for s in rng.sample(SUBSETS, rng.randint(0, 4))]
        for c in comps:
            if rng.random() < .3:
                improper(mon, rng, top)
            if not top.register_decoder(c.io):
                mon.fail(f"a proper sub-decoder {c.subset} was refused", c.subset)
                return
        att = err = 0
        for _ in range(150):
            num = rng.choice((rng.choice(ref.ALL_NUMBERS), rng.choice(ref.ALL_NUMBERS), rng.randrange(4096)))
            frm = frame_of(rng, num)
            owner = next((c for c in comps if num in c.real), None)
            want = None
            bad = False
            what = "nothing"
            for c in comps:
                c.plan = None
                c.calls.clear()
            if owner is not None:
                tp = owner.io.io_spec[num]
                k = rng.randrange(5)
                if k <= 1:
                    want = owner.plan = tp()
                    what = "a result"
                elif k == 2:
                    owner.plan = rng.choice((5, "text", b"", [], {}, object(), tp, namesake(tp), other(rng, tp), True, (tp(),), [tp()]))
                    bad, what = True, f"a {type(owner.plan).__name__}"
                elif k == 3:
                    bad, what = True, "None"
                else:
                    owner.plan = rng.choice(FAILURES)
                    bad, what = True, type(owner.plan).__name__
                att += 1
                err += bad
            got = top.decode(frm)
            mon.count("messages_routed")
            mon.count("contained_failures", bad)
            mon.case((num, what, tuple(c.subset for c in comps), frm) if comps else None)
            label = f"message {num} to {[c.subset for c in comps]} answering {what}"
            if got is not want:
                mon.fail(f"{label}: returned {got!r:.80}", frm.hex())
                return
            calls = [(c.subset, b) for c in comps for b in c.calls]
            if [(c.subset, bytes(b)) for c in comps for b in c.calls] != ([(owner.subset, frm)] if owner else []):
                mon.fail(f"{label}: calls {[(s, bytes(b).hex()[:20]) for s, b in calls]}", frm.hex())
                return
            if (top.dec_attempts, top.dec_errors) != (att, err):
                mon.fail(f"{label}: {top.dec_attempts} attempts, {top.dec_errors} errors instead of {att}, {err}", frm.hex())
                return
        mon.sample({"components": [c.subset for c in comps], "attempts": att, "errors": err}, 1)


class Printer:
    """Stand-in sub-printer."""

    def __init__(self, rng, top_mod, types, decl):
        self.calls = []
        self.closed = 0
        self.plan = None
        self.io = top_mod.SubPrinterInterface()
        self.io.data_spec = set(types) | set(decl)
        self.io.actual_spec = set(types)
        self.types = set(types)
        self.io.print = self.print
        self.io.close = self.close

    def print(self, block):
        self.calls.append(block)
        if self.plan is not None:
            raise self.plan

    def close(self):
        self.closed += 1


def printer(spec, mon, rng):
    import printer_top as pt
    gt = sut.load()["types"]
    names = ("ObservablesMSM", "BareObservablesMSM123", "BareObservablesMSM4567", "EphGPS", "EphGLO", "EphBDS", "EphGALF", "EphGALI",
             "EphNAVIC", "EphQZS", "BaseRP", "BaseRPH", "BaseAD", "BaseADSN", "BaseADSNRC", "BaseSP", "BaseTS", "BaseGLBS")
    types = [getattr(gt, n) for n in names]
    for _ in range(8):
        top = pt.PrinterTop()
        good = Printer(rng, pt, types[:1], ())
        if top.add_subprinter(good.io) or top.ready:
            mon.fail("a printer without a format accepted a sub-printer", None)
        mon.count("improper_refused")
        top.format = rng.choice(("XML", "", "json"))
        if top.exist or top.add_subprinter(good.io):
            mon.fail("a printer of an unknown format accepted a sub-printer", None)
        mon.count("improper_refused")
        top.format = rng.choice(("MARGO", "JSON", "JARGO"))
        pool = types[:]
        rng.shuffle(pool)
        subs = []
        for _ in range(rng.randint(0, 4)):
            mine = [pool.pop() for _ in range(rng.randint(1, min(5, len(pool))))] if pool else []
            if not mine:
                break
            # declared but not implemented types do not go there
            p = Printer(rng, pt, mine, rng.sample(types, 3))
            k = rng.randrange(6)
            if k < 4:
                x = Printer(rng, pt, mine, ())
                if k == 0:
                    x.io.print = pt.SubPrinterInterface.stub_print
                elif k == 1:
                    x.io.close = pt.SubPrinterInterface.stub_close
                elif k == 2:
                    x.io.actual_spec = set()
                bad = rng.choice((None, 7, object(), "JSON")) if k == 3 else x.io
                if top.add_subprinter(bad):
                    mon.fail(f"an improper sub-printer (kind {k}) was registered", k)
                mon.count("improper_refused")
            if not top.add_subprinter(p.io):
                mon.fail("a proper sub-printer was refused", None)
                return
            subs.append(p)
        if top.ready != bool(subs):
            mon.fail(f"ready is {top.ready} with {len(subs)} sub-printers", None)
        att = ok = 0
        for _ in range(120):
            tp = rng.choice(types + [int, dict])
            x = tp()
            owner = next((p for p in subs if tp in p.types), None)
            fails = owner is not None and rng.random() < .25
            for p in subs:
                p.calls.clear()
                p.plan = None
            if owner is not None:
                att += 1
                if fails:
                    owner.plan = rng.choice((AssertionError("injected"), AssertionError(), AssertionError(7), AssertionError("a", "b")))
                    mon.count("print_failures")
                else:
                    ok += 1
            top.print(x)
            mon.count("results_routed")
            mon.case((tp.__name__, fails, len(subs), att) if subs else None)
            calls = [(p, b) for p in subs for b in p.calls]
            if len(calls) != (owner is not None) or any(p is not owner or b is not x for p, b in calls):
                mon.fail(f"a {tp.__name__} went to {len(calls)} sub-printers", tp.__name__)
                return
            if (top.attempts, top.succeeded, top.errors) != (att, ok, att - ok):
                mon.fail(f"after a {tp.__name__}{' that failed' if fails else ''}: attempts {top.attempts}, succeeded {top.succeeded}, "
                         f"errors {top.errors} instead of {att}, {ok}, {att - ok}", tp.__name__)
                return
        top.close()
        if any(p.closed != 1 for p in subs) or good.closed:
            mon.fail(f"closed {[p.closed for p in subs]} times", None)


def streak(spec, mon, rng):
    """A component failing time after time stays registered, and so do the others."""
    import printer_top as pt
    dec = sut.load()["dec"]
    top = dec.DecoderTop()
    comps = [Component(rng, s, False) for s in SUBSETS]
    for c in comps:
        top.register_decoder(c.io)
    comps = [c for c in comps if c.real]
    att = err = 0
    for c in comps:
        num = rng.choice(sorted(c.real))
        others = [(o, rng.choice(sorted(o.real))) for o in comps if o is not c]
        for i in range(rng.choice((300, 1200))):
            c.plan = rng.choice(FAILURES + (None, 5))
            frm = frame_of(rng, num)
            got = top.decode(frm)
            att, err = att + 1, err + 1
            mon.count("contained_failures")
            if got is not None or [bytes(b) for b in c.calls] != [frm]:
                mon.fail(f"failure {i + 1} in a row of the {c.subset} sub-decoder: given {len(c.calls)} messages, result {got!r:.60}", num)
                return
            c.calls.clear()
            if i % 25 == 0 and others:
                o, n = rng.choice(others)
                o.plan = o.io.io_spec[n]()
                got = top.decode(frame_of(rng, n))
                att += 1
                if got is not o.plan:
                    mon.fail(f"after {i + 1} failures of {c.subset} message {n} gave {got!r:.60}", n)
                    return
                o.calls.clear()
                o.plan = None
        c.plan = c.io.io_spec[num]()
        att += 1
        got = top.decode(frame_of(rng, num))
        if got is not c.plan:
            mon.fail(f"after a run of failures the {c.subset} sub-decoder gave {got!r:.60} for {num}", num)
            return
        c.calls.clear()
        if (top.dec_attempts, top.dec_errors) != (att, err):
            mon.fail(f"{top.dec_attempts} attempts, {top.dec_errors} errors instead of {att}, {err} after runs of failures", num)
            return
        mon.case(("streak", c.subset, num, att))
    gt = sut.load()["types"]
    top = pt.PrinterTop()
    top.format = "JSON"
    subs = [Printer(rng, pt, {t}, ()) for t in (gt.EphGPS, gt.BaseRP, gt.ObservablesMSM)]
    for p in subs:
        top.add_subprinter(p.io)
    att = ok = 0
    for p in subs:
        tp = next(iter(p.types))
        n = rng.choice((300, 1200))
        for i in range(n + 1):
            x = tp()
            p.plan = rng.choice((AssertionError("injected"), AssertionError())) if i < n else None
            p.calls.clear()
            top.print(x)
            att, ok = att + 1, ok + (i == n)
            mon.count("print_failures", i < n)
            if len(p.calls) != 1 or p.calls[0] is not x or (top.attempts, top.succeeded) != (att, ok):
                mon.fail(f"failure {i + 1} in a row of a sub-printer: called {len(p.calls)} times, attempts {top.attempts}, "
                         f"succeeded {top.succeeded} instead of {att}, {ok}", tp.__name__)
                return
    top.close()
    if any(p.closed != 1 for p in subs):
        mon.fail(f"closed {[p.closed for p in subs]} times after failures", None)


def real(spec, mon, rng):
    """Real sub-decoders in any combination and order."""
    m = sut.load()
    import sub_decoders as sd
    make = {"MSM47O": sd.SubdecoderMSM4567, "MSM13O": sd.SubdecoderMSM123, "EPH": sd.SubdecoderEph, "BASE": sd.SubdecoderBaseStationData}
    frames = [gen.good_frame(rng, n) for n in rng.sample(ref.ALL_NUMBERS, 40)] + [gen.bad_frame(rng) for _ in range(10)]
    for bare in (False, True):
        with converter("JSON-B" if bare else "JSON") as full:
            want = {f: (lambda x: None if x is None else (type(x).__name__, sut.plain(x)))(full.decode(f)) for f in frames}
        for _ in range(4):
            chosen = rng.sample(SUBSETS, rng.randint(1, 4))
            top = m["dec"].DecoderTop()
            for s in chosen:
                if not top.register_decoder(make[s](bare_data=bare).io):
                    mon.fail(f"sub-decoder {s} was refused", s)
                    return
            mine = set().union(*(numbers(s) for s in chosen))
            att = err = 0
            for f in frames:
                num = ref.msg_number(f)
                x = top.decode(f)
                got = None if x is None else (type(x).__name__, sut.plain(x))
                exp = want[f] if num in mine else None
                att += num in mine
                err += num in mine and exp is None
                mon.count("real_components")
                mon.case((tuple(chosen), bare, f))
                if got != exp:
                    mon.fail(f"{chosen}: message {num} decodes differently from the full converter", f.hex())
                    return
                if (top.dec_attempts, top.dec_errors) != (att, err):
                    mon.fail(f"{chosen}: message {num}: attempts {top.dec_attempts}, errors {top.dec_errors} instead of {att}, {err}", f.hex())
                    return


def factory(spec, mon, rng):
    m = sut.load()
    for mode in ("XML", "", "json", "MARGO ", None, 3, "JSON-C"):
        with sut.scratch() as d, sut.quiet():
            c = m["conv"].ConverterFactory(mode)(d, sut.make_controls(ref.Controls()))
        mon.count("improper_refused")
        mon.case(("factory", mode))
        if c is not None:
            mon.fail(f"a converter for the unknown mode {mode!r}", mode)
    for s in ("XYZ", "", "eph", None):
        try:
            m["dec"].SubDecoderInterface(s)
        except AssertionError:
            mon.count("improper_refused")
        else:
            mon.fail(f"a sub-decoder interface for the unknown subset {s!r}", s)
    for mode in sut.MODES:
        with sut.scratch() as d:
            c = sut.new_converter(mode, d)
            if not isinstance(c, m["conv"].ConverterInterface):
                mon.fail(f"{mode}: not a converter: {type(c)}", mode)
            c.release()


def run(spec, mon):
    rng = rng_of(ID, spec)
    try:
        {"decoder": decoder, "printer": printer, "real": real, "factory": factory, "streak": streak}[spec["kind"]](spec, mon, rng)
    except Exception as ex:  # pylint: disable=broad-exception-caught
        tb = traceback.extract_tb(ex.__traceback__)
        if tb[-1].filename != __file__ or tb[-1].name not in ("decode", "print") or len(tb) < 4:
            raise
        mon.fail(f"a failure of a component ({type(ex).__name__}) went through the top object", "".join(traceback.format_exception(ex))[-2000:])
        sut.release_logger()
