"""Oracles over what a conversion produced, against the independent reference.

Differences are returned as (aspect, text):
  crash, verdict, stats, outside,
  json.files, json.doc, json.rec, json.key,
  margo.files, margo.head, margo.rows, margo.fmt, margo.nan, margo.value, margo.time
"""

from __future__ import annotations

import math

from . import ref, sut


# --- single decoding results ---------------------------------------------------------


def norm_scaled(rec: dict) -> dict:
    """Scaled MSM record: integer satellite keys, no empty signals."""
    out = dict(rec)
    if isinstance(rec.get("obs"), dict):
        o = {}
        for kind, sgs in rec["obs"].items():
            o[kind] = {}
            for lit, d in (sgs or {}).items():
                if d:
                    o[kind][lit] = {int(k): v for k, v in d.items()}
        out["obs"] = o
    return out


def norm_keys(x):
    """JSON object keys that are numbers -> int"""
    if isinstance(x, dict):
        return {(int(k) if isinstance(k, str) and k.isdigit() else k): norm_keys(v) for k, v in x.items()}
    if isinstance(x, list):
        return [norm_keys(v) for v in x]
    return x


def bare_mode(mode: str) -> bool:
    return mode == "JSON-B"


def status(r: ref.Result, mode: str) -> str:
    return r.bare_status if bare_mode(mode) else r.scaled_status


def expected_of(r: ref.Result, mode: str):
    return r.bare if bare_mode(mode) else r.scaled


def cmp_result(r: ref.Result, mode: str, got, limit=6) -> list[str]:
    """Compare the object returned by decode() with the reference; got: plain()."""
    out: list[str] = []
    exp = expected_of(r, mode)
    if r.kind == "MSM":
        if not isinstance(got, dict):
            return [f"result is {got!r:.80}"]
        g = dict(got)
        atr = g.pop("atr", None)
        ref.cmp({"gnss": r.msm.gnss, "subset": f"MSM{r.msm.n}", "msg_number": r.num}, atr, "atr", out, limit)
        if bare_mode(mode):
            e = {k: exp[k] for k in ("hdr", "sat", "sgn")}
        else:
            e = exp
            g = norm_scaled(g)
        ref.cmp(e, g, str(r.num), out, limit)
    else:
        ref.cmp(exp, norm_keys(got), str(r.num), out, limit)
    return out


# --- expectations of a whole stream --------------------------------------------------


class Expect:
    __slots__ = ("results", "attempts", "dec_min", "dec_max", "prs", "open", "short")


def expect(frames: list[bytes], gaps: list[bool], mode: str) -> Expect:
    e = Expect()
    e.results = []
    e.attempts = e.dec_min = e.open = e.short = 0
    for f in frames:
        r = ref.reference(f)
        if r.kind == "short":
            e.short += 1
            continue
        if not ref.supported(mode, r.num):
            continue
        e.attempts += 1
        st = status(r, mode)
        if st == ref.REJECT:
            e.dec_min += 1
        elif st == ref.OPEN:
            e.open += 1
        e.results.append(r)
    e.dec_max = e.dec_min + e.open
    e.prs = sum(gaps)
    return e


def json_record(r: ref.Result, mode: str, c: ref.Controls):
    """Expected JSON element."""
    exp = expected_of(r, mode)
    if r.kind != "MSM":
        return exp
    m = r.msm
    if bare_mode(mode):
        key = str(m.tod)
        rec = {"sat": exp["sat"], "sgn": exp["sgn"]}
    else:
        key = str(m.tod + m.day * ref.DAY)
        rec = {"obs": exp["obs"]}
    if c.hdr:
        rec["hdr"] = exp["hdr"]
    if c.aux:
        rec["aux"] = exp["aux"]
    return {key: rec}


def cmp_json_record(r, mode, c, got, path, out: list):
    exp = json_record(r, mode, c)
    if r.kind == "MSM":
        key = next(iter(exp))
        if not isinstance(got, dict) or list(got) != [key]:
            out.append(("json.key", f"{path}: expected the key {key}, got {list(got)!r:.80}"
                        if isinstance(got, dict) else f"{path}: {got!r:.80}"))
            return
        g = got[key]
        if not bare_mode(mode) and isinstance(g, dict):
            g = norm_scaled(g)
        d: list[str] = []
        ref.cmp(exp[key], g, path, d)
    else:
        d = []
        ref.cmp(exp, norm_keys(got), path, d)
    out += [("json.rec", x) for x in d]


def judge_json(files: dict, e: Expect, mode: str, c: ref.Controls, out: list, kinds=("MSM", "EPH", "BASE"),
               deep=True):
    """files: product files (relative path -> bytes); only JSON products are looked at."""
    by_num: dict[int, list] = {}
    for r in e.results:
        st = status(r, mode)
        if r.kind in kinds and st != ref.REJECT:
            by_num.setdefault(r.num, []).append(r)
    want = {}
    for num, rs in by_num.items():
        want[ref.json_path(num)] = rs
    for path, raw in files.items():
        if raw is None or not path.endswith(".json"):
            continue
        if path not in want:
            out.append(("json.files", f"unexpected product {path}"))
    for path, rs in want.items():
        ok = [r for r in rs if status(r, mode) == ref.OK]
        raw = files.get(path)
        if raw is None:
            if ok:
                out.append(("json.files", f"missing product {path} ({len(ok)} messages)"))
            continue
        try:
            doc = sut.load_json(raw)
        except ValueError as ex:
            out.append(("json.doc", f"{path}: not a valid JSON document: {ex}"))
            continue
        if not isinstance(doc, list) or not doc:
            out.append(("json.doc", f"{path}: not a JSON array"))
            continue
        num = rs[0].num
        if doc[0] != {"source_type": ref.source_type(num, bare_mode(mode))}:
            out.append(("json.doc", f"{path}: first element {doc[0]!r:.100}"))
        recs = doc[1:]
        if len(recs) == len(rs):
            pairs = zip(rs, recs)
        elif len(recs) == len(ok):
            pairs = zip(ok, recs)
        elif len(ok) < len(recs) < len(rs):
            continue
        else:
            out.append(("json.doc", f"{path}: {len(recs)} records for {len(ok)} messages"))
            continue
        if not deep:
            continue
        for i, (r, g) in enumerate(pairs):
            if status(r, mode) == ref.OK:
                cmp_json_record(r, mode, c, g, f"{path}[{i + 1}]", out)
                if len(out) > 12:
                    return


# --- MARGO ---------------------------------------------------------------------------


def margo_expect(e: Expect, mode: str, c: ref.Controls):
    """{path: [(time, row, all_optional)]}"""
    want: dict[str, list] = {}
    for r in e.results:
        if r.kind != "MSM" or status(r, mode) != ref.OK:
            continue
        for path, letter, lit, t, row, opt in ref.margo_rows(r.msm, r.scaled, c):
            want.setdefault(path, []).append((t, row, opt, letter, lit, r.msm.gnss))
    return want


def _num(field: str):
    s = field.strip()
    if s.lower() == "nan":
        return math.nan
    return float(s)


def judge_margo(files: dict, e: Expect, mode: str, c: ref.Controls, out: list):
    want = margo_expect(e, mode, c)
    for path, raw in files.items():
        if raw is not None and path.endswith(".obs") and path not in want:
            out.append(("margo.files", f"unexpected product {path}"))
    for path, rows in want.items():
        raw = files.get(path)
        needed = [x for x in rows if not x[2]]
        if raw is None:
            if needed:
                out.append(("margo.files", f"missing product {path} ({len(needed)} rows)"))
            continue
        _, _, _, letter, lit, g = rows[0]
        judge_obs(path, raw, rows, letter, lit, g, c, out)
        if len(out) > 12:
            return


def judge_obs(path, raw, rows, letter, lit, g, c, out):
    w, frc = ref.MARGO_FMT[letter]
    n = ref.MAX_SATS[g]
    try:
        text = raw.decode("utf-8")
    except UnicodeDecodeError as ex:
        out.append(("margo.fmt", f"{path}: {ex}"))
        return
    if text and not text.endswith("\n"):
        out.append(("margo.fmt", f"{path}: last row is not terminated"))
    lines = text.split("\n")[:-1]
    if len(lines) < 2:
        out.append(("margo.head", f"{path}: no header"))
        return
    h1 = ",".join([f"{ref.MARGO_ID[letter]:10d}"] + [f"{i:{w}d}" for i in range(1, n + 1)])
    if lines[0] != h1:
        out.append(("margo.head", f"{path}: header row {lines[0]!r:.120}"))
    fw, ff = max(9, w), max(4, frc)
    f0 = ref.carrier(g, lit)
    h2 = ",".join([f"{f0:10.{ff}f}"] + [f"{f:{fw}.{ff}f}" for f in ref.margo_carriers(g, lit, c)])
    if lines[1] != h2:
        out.append(("margo.head", f"{path}: frequency row {lines[1]!r:.160}, expected {h2!r:.160}"))
    body = lines[2:]
    needed = [x for x in rows if not x[2]]
    if len(body) == len(rows):
        pairs = list(zip(rows, body))
    elif len(body) == len(needed):
        pairs = list(zip(needed, body))
    elif len(needed) < len(body) < len(rows):
        return
    else:
        out.append(("margo.rows", f"{path}: {len(body)} rows, expected {len(needed)}"))
        return
    for i, ((t, row, _, _, _, _), line) in enumerate(pairs):
        where = f"{path} row {i + 1}"
        fs = line.split(",")
        if len(fs) != n + 1:
            out.append(("margo.fmt", f"{where}: {len(fs) - 1} columns, expected {n}"))
            continue
        try:
            got_t = int(fs[0])
            vals = [_num(x) for x in fs[1:]]
        except ValueError as ex:
            out.append(("margo.fmt", f"{where}: {ex}"))
            continue
        if len(fs[0]) != max(10, len(str(got_t))) or any(
            len(x) != w if len(x.strip()) <= w else x != x.strip() for x in fs[1:]
        ):
            out.append(("margo.fmt", f"{where}: column width {line!r:.120}"))
        for x in fs[1:]:
            s = x.strip()
            if s.lower() != "nan" and (len(s.partition(".")[2]) != frc or (frc == 0 and "." in s)):
                out.append(("margo.fmt", f"{where}: precision of {x!r}"))
                break
        if t is not ref.ANY and got_t != t:
            out.append(("margo.time", f"{where}: time {got_t}, expected {t}"))
        for s in range(1, n + 1):
            v = vals[s - 1]
            x = row.get(s)
            if x is None:
                if not math.isnan(v):
                    out.append(("margo.nan", f"{where}: satellite {s} has {v}, expected NaN"))
            elif isinstance(x, tuple):
                if not math.isnan(v) and not x[0].ok(v):
                    out.append(("margo.value", f"{where}: satellite {s} has {v}, expected {x[0]}"))
            elif math.isnan(v):
                out.append(("margo.nan", f"{where}: satellite {s} is NaN, expected {x}"))
            elif not x.ok(v):
                out.append(("margo.value", f"{where}: satellite {s} has {v}, expected {x}"))
            if len(out) > 12:
                return


# --- whole conversion ----------------------------------------------------------------


def frames_options(data: bytes):
    """The extraction results the frame scan allows (frames, gaps)."""
    s = ref.scan(data)
    yield s.frames, s.gaps
    if s.hold is not None:
        f = ref.scan(data, flush=True)
        if len(f.frames) != len(s.frames):
            yield f.frames, f.gaps


def judge_conversion(conv: sut.Conversion, data: bytes, mode: str, c: ref.Controls, deep=True):
    """All differences [(aspect, text)] and the expectation used."""
    if conv.exc is not None:
        return [("crash", f"main() raised {type(conv.exc).__name__}: {conv.exc}")], None
    best, used = None, None
    for frames, gaps in frames_options(data):
        e = expect(frames, gaps, mode)
        out: list = []
        judge_log(conv.log, e, len(data), out)
        if conv.outside:
            out.append(("outside", f"changed outside the product folder: {conv.outside[:4]}"))
        unknown = [p for p, v in conv.files.items() if v is not None and not p.endswith((".json", ".obs"))]
        if unknown:
            out.append(("json.files", f"unexpected files {unknown[:4]}"))
        if mode in ("JSON", "JSON-B"):
            judge_json(conv.files, e, mode, c, out, deep=deep)
            if any(p.endswith(".obs") for p in conv.files):
                out.append(("margo.files", "MARGO product in JSON mode"))
        elif mode == "MARGO":
            judge_margo(conv.files, e, mode, c, out)
            if any(p.endswith(".json") for p in conv.files):
                out.append(("json.files", "JSON product in MARGO mode"))
        else:
            judge_json(conv.files, e, mode, c, out, kinds=("EPH", "BASE"), deep=deep)
            judge_margo(conv.files, e, mode, c, out)
        if best is None or len(out) < len(best):
            best, used = out, e
        if not out:
            break
    return best, used


def judge_log(log, e: Expect, size: int, out: list):
    last, verdict = sut.log_facts(log)
    if log is None:
        out.append(("verdict", "no log file"))
        return
    if verdict not in ("ok", "errors"):
        out.append(("verdict", f"verdict {verdict}"))
        return
    if size == 0:
        if verdict != "ok":
            out.append(("verdict", f"verdict '{verdict}' for an empty file"))
        return
    if last is None:
        out.append(("stats", "no progress line"))
        return
    pct, att, prs, dec, prn = last
    if pct != 100.0:
        out.append(("stats", f"last progress is {pct}%"))
    if not e.attempts <= att <= e.attempts + e.short:
        out.append(("stats", f"{att} messages, expected {e.attempts}"))
    if prs != e.prs:
        out.append(("stats", f"{prs} parsing errors, expected {e.prs}"))
    if not e.dec_min <= dec <= e.dec_max + e.short:
        out.append(("stats", f"{dec} decoding errors, expected {e.dec_min}..{e.dec_max}"))
    if prn != 0:
        out.append(("stats", f"{prn} printing errors, expected none"))
    if (verdict == "ok") != (prs == dec == prn == 0):
        out.append(("verdict", f"verdict '{verdict}' with errors {prs}-{dec}-{prn}"))


def only(diffs, *aspects):
    """Select differences whose aspect starts with one of the given ones."""
    return [f"[{a}] {t}" for a, t in diffs if any(a == x or a.startswith(x + ".") for x in aspects)]
