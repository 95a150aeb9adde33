"""C18: options."""
import json
import math
import os

from .. import pristine
from .common import *
from .c12 import rand_controls

ID = "C18"
RULE = ("random complete defaults and random partial -i files (any subset of settings, spellings of booleans, key case) with "
        "one to three sources in every mode: the products must be identical to a run whose defaults are the merged settings; "
        "runs before and after without -i; pairs of runs differing in one option, whose products are compared by the rule "
        "documented for that option; defaults with each section or setting missing; non-trivial: runs with products")
MINIMUM = {"merges": 80, "option_pairs": 100, "invalid_defaults": 80, "files_compared": 4000}

KEYS = [("MARGO", "HCA"), ("MARGO", "LOCK_TIME"), ("JSON", "ENABLE_PRETTY_VIEW"), ("JSON", "ENABLE_HDR_DATA"),
        ("JSON", "ENABLE_AUX_DATA"), ("TIME", "GPS2UTC")] + [("LITERALS", f"R{i}") for i in range(1, 25)]


REPEAT = 4


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for mode in sut.MODES:
        for i in range(24 * k):
            yield dict(kind="merge", mode=mode, i=i, seed=seed)
        for i in range(3 * k):
            yield dict(kind="invalid", mode=mode, i=i, seed=seed)
    for opt in ("hca", "lock", "utc", "lit", "hdr", "aux", "pretty"):
        for mode in sut.MODES:
            for i in range(5 * k):
                yield dict(kind="pair", opt=opt, mode=mode, i=i, seed=seed)


def values(c):
    v = {("MARGO", "HCA"): c.hca, ("MARGO", "LOCK_TIME"): c.lock, ("JSON", "ENABLE_PRETTY_VIEW"): c.pretty,
         ("JSON", "ENABLE_HDR_DATA"): c.hdr, ("JSON", "ENABLE_AUX_DATA"): c.aux, ("TIME", "GPS2UTC"): c.utc}
    for i in range(1, 25):
        v[("LITERALS", f"R{i}")] = c.lit[i]
    return v


def text(rng, vals, fancy=True):
    by = {}
    for (s, key), v in vals.items():
        by.setdefault(s, []).append((key, v))
    secs = list(by.items())
    out = []
    if fancy:
        rng.shuffle(secs)
    if fancy and rng.random() < .2:  # other programs' settings in the same file
        secs.insert(rng.randrange(len(secs) + 1), (rng.choice(("USER", "json", "RINEX", "LITERALS2")), [("HCA", True), ("name", "x")]))
    for s, kv in secs:
        out.append(f"[{s}]")
        if fancy:
            rng.shuffle(kv)
        for key, v in kv:
            if isinstance(v, bool):
                t = rng.choice(("true", "True", "yes", "on", "1", "TRUE") if v else ("false", "False", "no", "off", "0")) \
                    if fancy else ("true" if v else "false")
            else:
                t = str(v)
            if fancy:
                key = rng.choice((key, key, key.lower()))
                if rng.random() < .1:
                    out.append(rng.choice(("# comment", "; comment", "")))
            out.append(f"{key} {rng.choice('=:')} {t}" if fancy else f"{key} = {t}")
    return "\n".join(out) + "\n"


def dump(d, name, s):
    p = os.path.join(d, name)
    with open(p, "w" if isinstance(s, str) else "wb", **({"encoding": "utf-8"} if isinstance(s, str) else {})) as f:
        f.write(s)
    return p


def products(d, stem, mode):
    p = os.path.join(d, f"{stem}-{mode}")
    t = sut.tree(p) if os.path.isdir(p) else {}
    return {k: v for k, v in t.items() if v is not None and k != f"{stem}-log.txt"}


def traffic(rng):
    """All constellations, lock time and half-cycle data, EPH and BASE."""
    fr = []
    for g in "GREBSQI":
        for _ in range(2):
            num = rng.choice([n for n, (gg, _) in ref.MSM_NUMBERS.items() if gg == g])
            fr.append(gen.msm_frame(rng, gen.msm(rng, num, time="valid", in_range=True, values=rng.choice(("rand", "mix")),
                                                 valid=.9, nsat=rng.randint(1, 5), nsig=2)))
    n7 = gen.msm(rng, 1087, time="valid", sats=[1, 2, 11, 24], sigs=[2, 8], values="small", valid=1)
    n7.sgn["hc_indc"] = [rng.randrange(2) for _ in n7.cells]
    fr.append(gen.msm_frame(rng, n7))
    fr += [gen.good_frame(rng, n) for n in rng.sample(sorted(ref.EPH_NUMBERS), 2) + rng.sample(sorted(ref.BASE_NUMBERS), 2)]
    rng.shuffle(fr)
    return b"".join(fr)


def differ(mon, a, b, what, detail):
    mon.count("files_compared", len(b))
    bad = sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))
    if bad:
        mon.fail(f"{what}: {bad[:3]} differ", detail)
    return bool(bad)


def run(spec, mon):
    rng = rng_of(ID, spec)
    {"merge": merge, "invalid": invalid, "pair": pair}[spec["kind"]](spec, mon, rng)


INI_NAMES = ("u.ini", "settings.cfg", "conf.txt", "noext", "UPPER.INI", "настройки.ini", "a.b.ini", ".hidden", "with space.ini",
             "sub/u.ini", "x.conf", "defaults.ini.bak", "u.json", "sub/defaults.ini")


def run_in(mode, srcs, defaults, ini, arrange, name="u.ini"):
    """Products of the runs in 'arrange', or the exception of main()"""
    with sut.scratch() as d:
        wd, sd = os.path.join(d, "w"), os.path.join(d, "d")
        os.makedirs(os.path.join(wd, "sub"))
        os.mkdir(sd)
        dump(wd, "defaults.ini", defaults)
        paths = [dump(sd, n + ".rtcm3", v) for n, v in srcs.items()]
        rv = []
        for use in arrange:
            args = ["-o", mode]
            if use == "ini":
                p = dump(wd, name, ini)
                args += ["-i", name if len(rv) else p]
            elif use == "missing":
                args += ["-i", os.path.join(wd, "absent.ini")]
            elif use == "empty":
                args += ["-i", dump(wd, "e.ini", "")]
            info = sut.run_main(wd, args + paths)
            if info.exc is not None:
                return repr(info.exc)
            rv.append({n: products(sd, n, mode) for n in srcs})
        return rv


def merge(spec, mon, rng):
    mode = spec["mode"]
    dflt, user = values(rand_controls(rng)), values(rand_controls(rng))
    how = rng.randrange(5)
    if how == 0:
        keys = [rng.choice(KEYS)]
    elif how == 1:
        keys = [k for k in KEYS if k[0] == rng.choice(("MARGO", "JSON", "TIME", "LITERALS"))] or [KEYS[0]]
    elif how == 2:
        keys = list(KEYS)
    else:
        keys = [k for k in KEYS if rng.random() < rng.choice((.2, .6))] or [rng.choice(KEYS)]
    part = {k: user[k] for k in keys}
    if rng.random() < .5:  # make the difference certain for the booleans
        for k in part:
            if isinstance(part[k], bool):
                part[k] = not dflt[k]
    merged = {**dflt, **part}
    srcs = {f"s{i}": traffic(rng) for i in range(rng.randrange(1, 4))}
    detail = {"defaults": text(rng, dflt, False), "ini": text(rng, part, False), "mode": mode}

    fancy = text(rng, part)
    seq = run_in(mode, srcs, text(rng, dflt), fancy, ("ini", "none", "ini", rng.choice(("missing", "empty", "none"))),
                 rng.choice(INI_NAMES))
    # the baselines come from processes without a history
    want, plain = pristine.calls("rtmon.checks.c18", "run_in", [(mode, srcs, text(rng, merged), None, ("none",)),
                                                                (mode, srcs, text(rng, dflt), None, ("none",))])
    for x, label in ((seq, "partial ini"), (want, "merged defaults"), (plain, "defaults")):
        if isinstance(x, str):
            mon.fail(f"{mode} {label}: main() raised {x}", detail)
            return
    mon.count("merges")
    mon.case((mode, detail["ini"], b"".join(srcs.values())))
    mon.sample({"mode": mode, "settings_overridden": [k[1] for k in keys][:6], "sources": len(srcs)}, 1)
    for n in srcs:
        in_force(mon, seq[0][n], merged, f"{mode}: source {n} with -i", detail)
        in_force(mon, seq[1][n], dflt, f"{mode}: source {n} without -i after a run with it", detail)
        in_force(mon, want[0][n], merged, f"{mode}: source {n}", detail)
        in_force(mon, plain[0][n], dflt, f"{mode}: source {n}", detail)
        differ(mon, seq[0][n], want[0][n], f"{mode}: source {n} with -i is not as with the merged settings", detail)
        differ(mon, seq[1][n], plain[0][n], f"{mode}: source {n} in a later run without -i is not as with the defaults", detail)
        differ(mon, seq[2][n], want[0][n], f"{mode}: source {n} with -i again is not as with the merged settings", detail)
        differ(mon, seq[3][n], plain[0][n], f"{mode}: source {n} in a run with no settings in -i is not as with the defaults", detail)


def controls(vals):
    g = lambda s, k: vals[(s, k)]  # noqa: E731
    return ref.Controls(hca=g("MARGO", "HCA"), lock=g("MARGO", "LOCK_TIME"), utc=g("TIME", "GPS2UTC"),
                        lit={i: g("LITERALS", f"R{i}") for i in range(1, 25)}, hdr=g("JSON", "ENABLE_HDR_DATA"),
                        aux=g("JSON", "ENABLE_AUX_DATA"), pretty=g("JSON", "ENABLE_PRETTY_VIEW"))


def in_force(mon, files, vals, label, detail):
    """What the products themselves show about the settings they were made with."""
    c = controls(vals)
    if not files:
        mon.fail(f"{label}: nothing was converted although all settings are valid", detail)
    for p, raw in files.items():
        name = os.path.basename(p)
        mon.count("settings_seen")
        if p.endswith(".obs"):
            if name[1] == "A" and not c.hca or name[1] == "T" and not c.lock:
                mon.fail(f"{label}: product {p} although the option is off", detail)
            if p.startswith("GLN"):
                f = [float(x) for x in obs(raw)[0][1].split(",")[1:]]
                want = ref.margo_carriers("R", name[2:4], c)
                if len(f) == len(want) and any(abs(x - y) > 1e-3 for x, y in zip(f, want)):
                    mon.fail(f"{label}: {p}: carriers {f[:4]} are not those of the settings {want[:4]}", detail)
        elif p.endswith(".json"):
            t = raw.decode()
            try:
                doc = json.loads(t)
            except ValueError:
                continue  # C13
            if p.startswith("MSM") and len(doc) > 1 and (t.count("\n") > 3 * len(doc) + 2) != c.pretty:
                mon.fail(f"{label}: {p}: {t.count(chr(10))} lines with pretty view {c.pretty}", detail)
            if p.startswith("MSM"):
                for e in doc[1:]:
                    r = next(iter(e.values()))
                    if ("hdr" in r) != c.hdr or ("aux" in r) != c.aux:
                        mon.fail(f"{label}: {p}: parts {sorted(r)} with hdr {c.hdr}, aux {c.aux}", detail)
                        break


def invalid(spec, mon, rng):
    mode = spec["mode"]
    full = values(rand_controls(rng))
    cases = [("no file", None), ("empty file", "")]
    for s in ("MARGO", "JSON", "TIME", "LITERALS"):
        cases.append((f"no section {s}", text(rng, {k: v for k, v in full.items() if k[0] != s})))
    for k in KEYS[:6] + rng.sample(KEYS[6:], 2):
        rest = {x: v for x, v in full.items() if x != k}
        t = text(rng, rest)
        if f"[{k[0]}]" not in t:
            t += f"[{k[0]}]\n"
        cases.append((f"no setting {k[1]}", t))
    src = traffic(rng)
    for label, dflt in cases:
        for ini in (None, text(rng, full)):
            with sut.scratch() as d:
                if dflt is not None:
                    dump(d, "defaults.ini", dflt)
                a, b = dump(d, "a.rtcm3", src), dump(d, "b.rtcm3", src)
                args = ["-o", mode] + (["-i", dump(d, "u.ini", ini)] if ini else [])
                info = sut.run_main(d, args + [a, b])
                mon.count("invalid_defaults")
                mon.case((mode, label, ini is None, src))
                if info.exc is not None:
                    mon.fail(f"{mode}: defaults with {label}: main() raised {info.exc!r}", dflt)
                    continue
                for n in "ab":
                    p = products(d, n, mode)
                    if p:
                        mon.fail(f"{mode}: defaults with {label}{' and -i' if ini else ''}: products {sorted(p)[:2]}", dflt)
                    log = sut.tree(d).get(os.path.join(f"{n}-{mode}", f"{n}-log.txt"), b"").decode()
                    if "No valid controls" not in log or "Finished" in log:
                        mon.fail(f"{mode}: defaults with {label}: the log of {n} does not say so: {log[-200:]!r}", dflt)


def obs(raw):
    lines = raw.decode().split("\n")[:-1]
    return lines[:2], [x.split(",") for x in lines[2:]]


def pair(spec, mon, rng):
    opt, mode = spec["opt"], spec["mode"]
    base = rand_controls(rng)
    data = traffic(rng)

    def conv(**kw):
        c = ref.Controls(**{**dict(hca=base.hca, lock=base.lock, utc=base.utc, lit=base.lit, hdr=base.hdr, aux=base.aux,
                                   pretty=base.pretty), **kw})
        x = sut.convert(data, mode, defaults=text(rng, values(c)))
        if x.exc is not None:
            mon.fail(f"{mode}: main() raised {x.exc!r}", c.describe())
            return None
        return {p: v for p, v in x.files.items() if v is not None}

    margo = opt in ("hca", "lock", "utc", "lit")
    if opt in ("utc",):
        a, b = 18, rng.choice((0, 17, 19, 37, 40))
    elif opt == "lit":
        a, b = dict(base.lit), {i: rng.randrange(-7, 7) for i in range(1, 25)}
    else:
        a, b = False, True
    A, B = conv(**{opt: a}), conv(**{opt: b})
    if A is None or B is None:
        return
    mon.count("option_pairs")
    if not A or not B:
        mon.fail(f"{mode}: nothing was converted although all settings are valid", base.describe())
    mon.case((mode, opt, base.describe(), data))
    bad = lambda t: mon.fail(f"{mode}, option {opt} {a}->{b}: {t}", {"data": data.hex(), "options": base.describe()})  # noqa: E731
    jsn = lambda t: {p: v for p, v in t.items() if p.endswith(".json")}  # noqa: E731
    mrg = lambda t: {p: v for p, v in t.items() if p.endswith(".obs")}  # noqa: E731
    if margo:
        differ(mon, jsn(A), jsn(B), f"{mode}: option {opt} changes JSON products", data.hex())
        A, B = mrg(A), mrg(B)
    else:
        differ(mon, mrg(A), mrg(B), f"{mode}: option {opt} changes MARGO products", data.hex())
        A, B = jsn(A), jsn(B)
    kind = lambda p: os.path.basename(p)[1]  # noqa: E731
    if opt in ("lock", "hca"):
        letter = "T" if opt == "lock" else "A"
        if any(kind(p) == letter for p in A):
            bad(f"{letter} products although disabled")
        extra = {p for p in B if p not in A}
        if any(kind(p) != letter for p in extra) or set(A) - set(B):
            bad(f"product set changed otherwise: {sorted(extra ^ (set(A) - set(B)))[:3]}")
        want = {p.replace(os.path.basename(p), os.path.basename(p)[0] + letter + os.path.basename(p)[2:])
                for p in A if kind(p) == "L" and not p.endswith("MSM1.obs")}
        if mode in ("MARGO", "JARGO") and not extra and want:
            bad(f"no {letter} products although enabled")
        for p in A:
            if p in B and A[p] != B[p]:
                if opt == "lock" or kind(p) != "L":
                    bad(f"{p} changed")
                    continue
                (ha, ra), (hb, rb) = obs(A[p]), obs(B[p])
                fa = B.get(os.path.join(os.path.dirname(p), os.path.basename(p)[0] + "A" + os.path.basename(p)[2:]))
                amb = {}
                for r in obs(fa)[1] if fa else []:
                    amb.setdefault(int(r[0]), []).append(r[1:])
                if ha != hb or [r[0] for r in ra] != [r[0] for r in rb]:
                    bad(f"{p}: header or times changed")
                    continue
                for x, y in zip(ra, rb):
                    cands = amb.get(int(x[0]), [])
                    for i, (u, v) in enumerate(zip(x[1:], y[1:])):
                        if u != v:
                            mon.count("ambiguous_seen")
                            flags = {float(q[i]) for q in cands}
                            if u.strip().lower() != "nan" or v.strip().lower() == "nan" or 1.0 not in flags:
                                bad(f"{p}: satellite {i + 1} {u.strip()} / {v.strip()} with flag {flags}")
    elif opt == "utc":
        for p in set(A) | set(B):
            if not p.startswith("GLN") and A.get(p) == B.get(p):
                continue
            if not p.startswith("GLN") or p not in A or p not in B:
                bad(f"{p} changed")
                continue
            (ha, ra), (hb, rb) = obs(A[p]), obs(B[p])
            if ha != hb or [r[1:] for r in ra] != [r[1:] for r in rb]:
                bad(f"{p}: more than the time changed")
            for x, y in zip(ra, rb):
                if (int(y[0]) - int(x[0]) - (b - a) * 1000) % ref.WEEK:
                    bad(f"{p}: time {x[0]} -> {y[0]}")
    elif opt == "lit":
        for p in set(A) | set(B):
            if p not in A or p not in B:
                bad(f"{p} appeared or vanished")
                continue
            if not p.startswith("GLN"):
                if A[p] == B[p]:
                    continue
                bad(f"{p} changed")
                continue
            (ha, ra), (hb, rb) = obs(A[p]), obs(B[p])
            if ha[0] != hb[0] or kind(p) not in "LD" and ra != rb:
                bad(f"{p} changed")
            for i, (u, v) in enumerate(zip(ha[1].split(",")[1:], hb[1].split(",")[1:]), start=1):
                step = {"1": .5625, "2": .4375}.get(os.path.basename(p)[2], 0)
                if not math.isclose(float(v) - float(u), step * (b[i] - a[i]), abs_tol=2e-4):
                    bad(f"{p}: frequency of satellite {i} {u} -> {v}")
                if a[i] == b[i] and any(x[i] != y[i] for x, y in zip(ra, rb)):
                    bad(f"{p}: column {i} changed although its number did not")
    else:
        for p in set(A) | set(B):
            if p not in A or p not in B:
                bad(f"{p} appeared or vanished")
                continue
            try:
                x, y = A[p].decode(), B[p].decode()
                pairs = lambda q: q  # noqa: E731
                u, v = json.loads(x, object_pairs_hook=pairs), json.loads(y, object_pairs_hook=pairs)
            except ValueError as ex:
                bad(f"{p}: {ex}")
                continue
            mon.count("files_compared")
            if opt == "pretty":
                if u != v:
                    bad(f"{p}: content changed")
                if y.count("\n") <= x.count("\n"):
                    bad(f"{p}: white space {x.count(chr(10))} / {y.count(chr(10))} lines")
                continue
            if not p.startswith("MSM"):
                if x != y:
                    bad(f"{p} changed")
                continue
            u, v = json.loads(x), json.loads(y)
            if len(u) != len(v) or u[0] != v[0]:
                bad(f"{p}: records changed")
                continue
            for e, f in zip(u[1:], v[1:]):
                (ke, re), (kf, rf) = next(iter(e.items())), next(iter(f.items()))
                if opt in re or opt not in rf:
                    bad(f"{p}: part {opt} {'present' if opt in re else 'missing'}")
                    break
                rf = {k: w for k, w in rf.items() if k != opt}
                if ke != kf or re != rf:
                    bad(f"{p}: more than the part {opt} changed")
                    break
