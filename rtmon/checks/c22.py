"""C22: record comparison and copying."""
import dataclasses
import math

from .common import *

ID = "C22"
RULE = ("records of all ephemeris and base-station types (decoded from random messages, bare and scaled, and filled with random "
        "values), plus records with nested containers and nested records defined by the harness; pairs differing by nothing or "
        "by one perturbation (sign, last digit, just inside / just outside the tolerance, NaN, missing or extra element, order, "
        "type, other record type) compared with an independent oracle, in both directions and with several tolerances; copies "
        "and deep copies mutated at every level; non-trivial: perturbed pairs")
MINIMUM = {"comparisons": 30000, "expected_false": 10000, "expected_true": 10000, "mutations": 5000, "negative_floats": 2000}


REPEAT = 6


def jobs(tier, seed):
    k = 1 if tier == "quick" else 15
    for i in range(40 * k):
        yield dict(kind="decoded", i=i, seed=seed)
        yield dict(kind="filled", i=i, seed=seed)
        yield dict(kind="nested", i=i, seed=seed)
        yield dict(kind="copies", i=i, seed=seed)


def types_():
    t = sut.load()["types"]
    base = t.DataClassMethods
    out = [v for v in vars(t).values() if isinstance(v, type) and issubclass(v, base) and v is not base
           and dataclasses.is_dataclass(v)]
    return sorted(out, key=lambda x: x.__name__), base


_cache = {}


def own():
    """Record types of the harness using the library's mixin."""
    if not _cache:
        _, base = types_()

        @dataclasses.dataclass
        class Inner(base):
            a: int = 0
            f: float = 0.0
            d: dict = dataclasses.field(default_factory=dict)

        @dataclasses.dataclass
        class Rec(base):
            n: int = 0
            x: float = 0.0
            s: str = ""
            lst: list = dataclasses.field(default_factory=list)
            tup: tuple = ()
            d: dict = dataclasses.field(default_factory=dict)
            inner: Inner = dataclasses.field(default_factory=Inner)
            name: str = "standard"
            count: int = 7
            ratio: float = 1.5
            opts: list = dataclasses.field(default_factory=lambda: [1, 2])
            pairs: dict = dataclasses.field(default_factory=lambda: {"a": 1})

        _cache.update(Inner=Inner, Rec=Rec)
    return _cache["Inner"], _cache["Rec"]


# --- oracle --------------------------------------------------------------------------

UNSURE = object()


def same(a, b, tol):
    """True / False / UNSURE (not specified)"""
    if type(a) is not type(b):
        num = (int, float, bool)
        if isinstance(a, num) and isinstance(b, num):
            return UNSURE
        return False
    if isinstance(a, bool) or isinstance(a, (int, str)):
        return a == b
    if isinstance(a, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return UNSURE if a == b else False if not (math.isinf(a) and math.isinf(b)) else UNSURE
        d = abs(b - a)
        if abs(b) > tol:
            d /= abs(b)
        if d < tol * .999:
            return True
        return False if d > tol * 1.001 else UNSURE
    if dataclasses.is_dataclass(a):
        r = [same(getattr(a, f.name), getattr(b, f.name), tol) for f in dataclasses.fields(a)]
    elif isinstance(a, dict):
        if a.keys() != b.keys():
            return False
        r = [same(a[k], b[k], tol) for k in a]
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        r = [same(x, y, tol) for x, y in zip(a, b)]
    else:
        return UNSURE
    if any(x is False for x in r):
        return False
    return UNSURE if any(x is UNSURE for x in r) else True


def check(mon, a, b, tol, label):
    want = same(a, b, 1e-15 if tol is None else tol) if type(a) is type(b) else False
    if want is UNSURE:
        mon.count("unspecified")
        return
    pa, pb = repr(a), repr(b)
    got = a.compare(b) if tol is None else a.compare(b, tol)
    mon.count("comparisons")
    mon.count(f"expected_{str(want).lower()}")
    mon.case((pa, pb, tol) if pa != pb else None)
    if bool(got) is not want:
        mon.fail(f"compare ({label}, tolerance {tol}) of {type(a).__name__} gave {got}, expected {want}", {"a": pa, "b": pb})
    if (repr(a), repr(b)) != (pa, pb):
        mon.fail(f"compare ({label}) changed its operands", {"a": pa, "b": pb})


# --- values --------------------------------------------------------------------------


def rfloat(rng):
    k = rng.randrange(8)
    if k == 0:
        return 0.0
    if k == 1:
        return math.nan
    if k == 2:
        return rng.uniform(-1e-16, 1e-16)
    v = rng.uniform(-1, 1) * 10.0 ** rng.randrange(-12, 15)
    return v


def rvalue(rng, depth=0):
    k = rng.randrange(7 if depth < 3 else 3)
    if k == 0:
        return rng.choice((0, 1, -1, rng.getrandbits(40), -rng.getrandbits(20)))
    if k in (1, 2):
        return rfloat(rng) if k == 1 else rng.choice(("", "a", "abc", "ABC", "日本", "1", "nan"))
    if k == 3:
        return [rvalue(rng, depth + 1) for _ in range(rng.randrange(0, 4))]
    if k == 4:
        return tuple(rvalue(rng, depth + 1) for _ in range(rng.randrange(0, 4)))
    return {rng.choice(("a", "b", 1, 2, "1C", rng.randrange(9))): rvalue(rng, depth + 1) for _ in range(rng.randrange(0, 4))}


def paths(x, pre=()):
    """All positions inside a record."""
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            yield from paths(getattr(x, f.name), pre + (("attr", f.name),))
        return
    if pre:
        yield pre
    if isinstance(x, dict):
        for k in x:
            yield from paths(x[k], pre + (("item", k),))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from paths(v, pre + (("item", i),))


def rebuild(x, path, fn):
    """Copy of x (own code, not the library's) with fn applied at path."""
    if not path:
        return fn(x)
    (kind, key), rest = path[0], path[1:]
    if kind == "attr":
        n = clone(x)
        setattr(n, key, rebuild(getattr(x, key), rest, fn))
        return n
    if isinstance(x, dict):
        return {k: (rebuild(v, rest, fn) if k == key else clone(v)) for k, v in x.items()}
    seq = [rebuild(v, rest, fn) if i == key else clone(v) for i, v in enumerate(x)]
    return tuple(seq) if isinstance(x, tuple) else seq


def clone(x):
    if dataclasses.is_dataclass(x):
        n = object.__new__(type(x))
        for f in dataclasses.fields(x):
            setattr(n, f.name, clone(getattr(x, f.name)))
        return n
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    if isinstance(x, tuple):
        return tuple(clone(v) for v in x)
    return x


def perturb(rng, tol):
    def fn(v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return rng.choice((v + 1, v - 1, -v - 1, v ^ (1 << rng.randrange(40)), v + (1 << 60), str(v)))
        if isinstance(v, float):
            k = rng.randrange(8)
            if k == 0:
                return math.nan
            if k == 1:
                return -v
            if k == 2:
                return math.nextafter(v, math.inf)
            if k == 3:
                return v * (1 + tol * rng.choice((-.5, .5, -.9, .9)))
            if k == 4:
                return v * (1 + tol * rng.choice((-1.5, 1.5, -2, 2, 100)))
            if k == 5:
                return v + tol * rng.choice((-.5, .5, -3, 3))
            if k == 6:
                return v + rng.choice((1.0, -1.0, 1e-3))
            return str(v)
        if isinstance(v, str):
            return rng.choice((v + " ", v + "x", v[1:], v.swapcase(), " " + v, v[::-1]))
        if isinstance(v, dict):
            d = dict(v)
            k = rng.randrange(4)
            if k == 0 and d:
                d.pop(rng.choice(list(d)))
            elif k == 1:
                d["extra"] = 0
            elif k == 2:
                d = dict(reversed(list(d.items())))
            elif d:
                a = rng.choice(list(d))
                d[("other", a)] = d.pop(a)
            return d
        if isinstance(v, (list, tuple)):
            s = list(v)
            k = rng.randrange(5)
            if k == 0 and s:
                s.pop(rng.randrange(len(s)))
            elif k == 1:
                s.append(rng.choice((0, 0.0, "")))
            elif k == 2:
                s.reverse()
            elif k == 3 and s:
                s = s + s[-1:]
            else:
                return s if isinstance(v, tuple) else tuple(s)
            return tuple(s) if isinstance(v, tuple) else s
        return v
    return fn


def trial(mon, rng, a, n=25):
    tols = (1e-15, 1e-12, 1e-9, 1e-6, 1e-3, .1, .3)
    ps = list(paths(a))
    for tol in tols:
        check(mon, a, clone(a), tol, "equal")
    for f in dataclasses.fields(a):
        v = getattr(a, f.name)
        mon.count("negative_floats", isinstance(v, float) and v < 0)
    for _ in range(n):
        tol = rng.choice(tols)
        b = rebuild(a, rng.choice(ps), perturb(rng, tol))
        if rng.random() < .25:
            check(mon, a, b, None, "perturbed")
            check(mon, a, rebuild(a, rng.choice(ps), perturb(rng, 1e-15)), None, "perturbed")
        check(mon, a, b, tol, "perturbed")
        check(mon, b, a, tol, "perturbed, reversed")
        if rng.random() < .3:
            c = rebuild(b, rng.choice(ps), perturb(rng, tol)) if set(ps) == set(paths(b)) else b
            check(mon, a, c, tol, "perturbed twice")
    # default tolerance
    got = a.compare(clone(a))
    if got is not True:
        mon.fail(f"{type(a).__name__} does not equal its clone", repr(a))


def decoded(rng, mode=None):
    nums = [n for n in ref.ALL_NUMBERS if n not in ref.MSM_NUMBERS]
    while True:
        with converter(mode or rng.choice(("JSON", "JSON-B"))) as conv:
            x = conv.decode(gen.good_frame(rng, rng.choice(nums)))
        if x is not None:
            return x


def filled(rng, cls):
    x = cls()
    for f in dataclasses.fields(x):
        v = getattr(x, f.name)
        if isinstance(v, dict) and rng.random() < .5:
            nv = {k: rng.choice((rng.randrange(9), rfloat(rng))) for k in v} or {i: (rng.randrange(2), rng.randrange(99)) for i in range(3)}
        elif isinstance(v, dict):
            nv = {rng.randrange(4096): (bool(rng.randrange(2)), rfloat(rng)) for _ in range(rng.randrange(0, 5))}
        elif isinstance(v, str):
            nv = rng.choice(("", "text", "日本語", "0x41"))
        else:
            nv = rng.choice((rng.getrandbits(30), -rng.getrandbits(30), rfloat(rng), rfloat(rng), True))
        setattr(x, f.name, nv)
    return x


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    classes, _ = types_()
    inner, rec = own()
    if k == "decoded":
        for _ in range(8):
            a = decoded(rng)
            trial(mon, rng, a)
            b = decoded(rng)
            tol = rng.choice((1e-15, 1e-6))
            if type(a) is type(b):
                check(mon, a, b, tol, "two messages")
            elif not isinstance(a, type(b)) and not isinstance(b, type(a)):
                check(mon, a, b, tol, "two types")
        mon.sample({"record": type(a).__name__}, 1)
    elif k == "filled":
        for cls in classes:
            trial(mon, rng, filled(rng, cls), 12)
            other = rng.choice(classes)
            if not issubclass(cls, other) and not issubclass(other, cls):
                check(mon, cls(), other(), 1e-9, "two types")
            for junk in (None, 1, "x", {}, [], object()):
                try:
                    r = cls().compare(junk)
                except (TypeError, AttributeError) as ex:
                    r = ex
                if isinstance(junk, object) and type(junk) is object:
                    continue
                mon.count("comparisons")
                if r is not False:
                    mon.fail(f"{cls.__name__}().compare({junk!r}) gave {r!r}")
    elif k == "nested":
        for _ in range(12):
            def make():
                i = inner(rng.randrange(-5, 5), rfloat(rng), {1: rfloat(rng), "k": [1, 2.5]})
                return rec(rng.getrandbits(20), rfloat(rng), "s", [rvalue(rng) for _ in range(3)],
                           tuple(rvalue(rng) for _ in range(2)), {j: rvalue(rng) for j in range(3)}, i)
            trial(mon, rng, make(), 30)
            # the tolerance holds at every level
            a = rec(x=-2.5, lst=[1.0, {"v": -3.0}], inner=inner(f=-7.0, d={"q": (-1.5,)}))
            for tol in (1e-12, 1e-6, 1e-3):
                for path in paths(a):
                    for fac in (.5, 2.0):
                        b = rebuild(a, path, lambda v: v * (1 + fac * tol) if isinstance(v, float) else v)
                        check(mon, a, b, tol, f"{fac} tolerances at {path}")
    else:
        for _ in range(10):
            srcs = [decoded(rng), filled(rng, rng.choice(classes)),
                    rec(name=rng.choice(("", "x")), count=rng.choice((0, -1, 7)), ratio=rng.choice((0.0, -0.0, math.nan, 2.5)),
                        opts=rng.choice(([], [0], [1, 2])), pairs=rng.choice(({}, {"b": 0}, {"a": 1}))),
                    rec(None, None, None, None, None, None, inner(None, None, None), None, None, None, None, None),
                    rec(False, 0, "0", [None], (), {None: None}, inner(), name=b"", count=1 << 80, ratio=5e-324),
                    rec(1, 2.0, "s", [1, [2, {"a": [3]}]], (1, [2]), {"k": {"l": [1]}}, inner(d={"z": [1]}))]
            for a in srcs:
                copies(mon, rng, a)


def strict(a, b):
    """Field-by-field identity of values including types, NaN equal to itself."""
    return repr(a) == repr(b) and type(a) is type(b)


def copies(mon, rng, a):
    names = [f.name for f in dataclasses.fields(a)]
    if [x for x, _ in a.items()] != names or any(v is not getattr(a, n) for n, v in a.items()) or a.len() != len(names):
        mon.fail(f"{type(a).__name__}: items() or len() does not enumerate the fields", repr(a))
    for deep in (False, True):
        c = a.deepcopy() if deep else a.copy()
        mon.case((repr(a), deep))
        what = "deep copy" if deep else "copy"
        if c is a or not strict(c, a):
            mon.fail(f"{type(a).__name__}: the {what} is not equal to the original", {"a": repr(a), "c": repr(c)})
            continue
        if comparable(a) and a.compare(c) is not True:
            mon.fail(f"{type(a).__name__}: the {what} does not compare equal", {"a": repr(a), "c": repr(c)})
        for who, other, side in ((c, a, "original"), (a, c, what)):
            was = repr(other)
            for n in names:
                keep = getattr(who, n)
                setattr(who, n, "changed")
                mon.count("mutations")
                if repr(other) != was:
                    mon.fail(f"{type(a).__name__}: assigning {n} of the {what} pair changes the {side}", was)
                    return
                setattr(who, n, keep)
            if deep:
                for m in mutables(who):
                    undo = scribble(m)
                    mon.count("mutations")
                    if repr(other) != was:
                        mon.fail(f"{type(a).__name__}: changing a nested container of the {what} pair changes the {side}", was)
                        return
                    undo()


def comparable(x):
    return not any(w in repr(x) for w in ("inf", "None", "b'"))


def mutables(x):
    if dataclasses.is_dataclass(x):
        for f in dataclasses.fields(x):
            yield from mutables(getattr(x, f.name))
    elif isinstance(x, dict):
        yield x
        for v in x.values():
            yield from mutables(v)
    elif isinstance(x, list):
        yield x
        for v in x:
            yield from mutables(v)
    elif isinstance(x, tuple):
        for v in x:
            yield from mutables(v)


def scribble(m):
    if isinstance(m, dict):
        keep = dict(m)
        m["scribble"] = 1
        m.update({k: "scribbled" for k in keep})

        def undo():
            m.clear()
            m.update(keep)
        return undo
    keep = list(m)
    m[:] = ["scribbled"] * (len(keep) + 1)

    def undo2():
        m[:] = keep
    return undo2
