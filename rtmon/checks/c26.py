"""C26: the command line."""
import os
import re
import subprocess
import sys

from .. import pristine
from .common import *
from .c12 import rand_controls

ID = "C26"
RULE = ("command lines made of the documented options in every spelling (short, long, joined, '='), order and combination, with "
        "one to three sources given absolutely or relatively, started as a real process (python run_conversion.py), through "
        "sys.argv and as a string given to main(): the products and logs are compared with those of the plain '-o MODE ... SRC' "
        "run of a fresh process in the same place, the kind of products with the mode asked for; malformed command lines, help "
        "and version requests, whose exit status, text and file-system effect (none) are observed; non-trivial: all of them")
MINIMUM = {"command_lines": 150, "processes": 90, "products_compared": 2000, "refused": 40, "information_requests": 20}


REPEAT = 2


def jobs(tier, seed):
    k = 1 if tier == "quick" else 12
    for i in range(40 * k):
        yield dict(kind="valid", i=i, seed=seed)
    for i in range(6 * k):
        yield dict(kind="invalid", i=i, seed=seed)
        yield dict(kind="info", i=i, seed=seed)
        yield dict(kind="directory", i=i, seed=seed)


ENV = {"PATH": os.environ.get("PATH", ""), "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8", "HOME": "/nonexistent"}


def process(cwd, args, stdin=""):
    p = subprocess.run([sys.executable, os.path.join(sut.REPO, "run_conversion.py")] + args, cwd=cwd, env=ENV,
                       input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def inproc(cwd, args, how):
    info = sut.run_main(cwd, args, via_argv=how == "argv")
    if isinstance(info.exc, SystemExit):
        code = info.exc.code
        return (0 if code is None else code if isinstance(code, int) else 1), info.console, info.console
    if info.exc is not None:
        return repr(info.exc), info.console, info.console
    return 0, info.console, info.console


def start(how, cwd, args):
    return process(cwd, args) if how == "process" else inproc(cwd, args, how)


def option(rng, short, long, value):
    k = rng.randrange(4)
    if k == 0:
        return [short, value]
    if k == 1:
        return [short + value]
    if k == 2:
        return [long, value]
    return [f"{long}={value}"]


def scene(rng, d, n):
    wd = os.path.join(d, "w")
    os.mkdir(wd)
    with open(os.path.join(wd, "defaults.ini"), "w", encoding="utf-8") as f:
        f.write(sut.repo_defaults())
    with open(os.path.join(wd, "user.ini"), "w", encoding="utf-8") as f:
        f.write(rand_controls(rng).ini())
    srcs = []
    for i in range(n):
        folder = rng.choice((wd, d, os.path.join(d, "data"), os.path.join(d, "Data", "RTCM")))
        os.makedirs(folder, exist_ok=True)
        p = os.path.join(folder, f"{rng.choice(('s', 'S', 'Base_', 'json', 'o-', 'é'))}{i}{rng.choice(('.rtcm3', '.bin', '.x.rtcm3', '', '.RTCM3'))}")
        with open(p, "wb") as f:
            f.write(b"".join(gen.session(rng, rng.randrange(2, 6))) + gen.good_frame(rng, 1019) + gen.good_frame(rng, 1005)
                    + gen.msm_frame(rng, gen.msm(rng, 1077, time="valid", in_range=True, values="small", valid=1)))
        srcs.append(p)
    return wd, srcs


def outputs(d, srcs, inputs):
    return {k: v for k, v in sut.tree(d).items() if k not in inputs}


def wipe(d, names):
    for k in sorted(names, key=len, reverse=True):
        p = os.path.join(d, k)
        (os.rmdir if os.path.isdir(p) else os.remove)(p)


def run(spec, mon):
    rng = rng_of(ID, spec)
    {"valid": valid, "invalid": invalid, "info": info_request, "directory": directory}[spec["kind"]](spec, mon, rng)


def valid(spec, mon, rng):
    with sut.scratch() as d:
        wd, srcs = scene(rng, d, rng.randrange(1, 4))
        inputs = sut.tree(d)
        for how in ("process", "argv", "string", "process"):
            mode = rng.choice(sut.MODES + (None,))
            ini = rng.random() < .4
            opts = []
            if mode:
                opts.append(option(rng, "-o", "--output", mode))
            if ini:
                opts.append(option(rng, "-i", "--ini", rng.choice(("user.ini", os.path.join(wd, "user.ini")))))
            if rng.random() < .2:
                opts.append(["-ext", rng.choice(("rtcm3", "bin", "xyz"))])
            files = [p if rng.random() < .5 else os.path.relpath(p, wd) for p in srcs]
            if rng.random() < .3:
                files.insert(rng.randrange(len(files) + 1), os.path.join(wd, "absent.rtcm3"))
            rng.shuffle(opts)
            if rng.random() < .5:
                args = [x for o in opts for x in o] + files
            elif rng.random() < .5:
                args = files + [x for o in opts for x in o]
            else:  # in the middle of the options
                i = rng.randrange(len(opts) + 1)
                args = [x for o in opts[:i] for x in o] + files + [x for o in opts[i:] for x in o]
            m = mode or "MARGO"
            plain = ["-o", m] + (["-i", os.path.join(wd, "user.ini")] if ini else []) + srcs
            got = start(how, wd, args)
            a = outputs(d, srcs, inputs)
            changed = sorted(k for k in inputs if sut.tree(d).get(k, 0) != inputs[k])
            if changed:
                mon.fail(f"{' '.join(args)}: changed {changed[:3]}", args)
                return
            wipe(d, a)
            want = pristine.call("rtmon.checks.c26", "inproc", wd, plain, "argv")
            b = outputs(d, srcs, inputs)
            wipe(d, b)
            mon.count("command_lines")
            mon.count("processes", how == "process")
            mon.count("products_compared", len(b))
            mon.case((how, tuple(args), repr(sorted(b))))
            mon.sample({"how": how, "args": [os.path.basename(x) for x in args], "files": len(b)}, 1)
            label = f"{how} {' '.join(os.path.basename(x) for x in args)}"
            if got[0] != 0 or want[0] != 0:
                mon.fail(f"{label}: exit {got[0]} (plain {want[0]}): {(got[2] or got[1])[-200:]!r}", args)
                return
            bad = sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))
            if bad:
                mon.fail(f"{label}: {bad[:3]} differ from those of '-o {m} SRC...' ({len(a)} / {len(b)} files)", args)
                return
            for p in srcs:
                shape(mon, d, p, m, b, label, args)


def shape(mon, d, src, mode, files, label, args):
    """The kind of products of the mode."""
    stem = os.path.splitext(os.path.relpath(src, d))[0]
    fld = f"{stem}-{mode}"
    own = {k[len(fld) + 1:]: v for k, v in files.items() if k.startswith(fld + os.sep) and v is not None}
    if f"{os.path.basename(stem)}-log.txt" not in own:
        mon.fail(f"{label}: no log in {fld}", args)
        return
    obs = {k for k in own if k.endswith(".obs")}
    jsn = {k for k in own if k.endswith(".json")}
    msm = {k for k in jsn if k.startswith("MSM")}
    if mode == "MARGO":
        ok = obs and not jsn
    elif mode == "JARGO":
        ok = obs and jsn and not msm
    else:
        ok = msm and jsn - msm and not obs and all((b'"Bare' in own[k][:60]) == (mode == "JSON-B") for k in msm)
    if not ok:
        mon.fail(f"{label}: products of {fld} are not those of {mode}: {sorted(own)[:5]}", args)


def near(rng):
    """A word close to a mode."""
    m = rng.choice(sut.MODES)
    while True:
        k = rng.randrange(8)
        w = (m.lower(), m.title(), m[:-1], m + rng.choice("S2-B_ "), m.replace("-", "_"), m.replace("-", ""), " " + m,
             rng.choice(("ALL", "CSV", "RINEX", "TXT", "BARE", "JSON-C", "JSON-M", "JSONB", "JSON_B", "JSON B", "MARGO-B", "0", "None",
                         "MARGO,JSON", "J", "M")))[k]
        if w not in sut.MODES and w:
            return w


def invalid(spec, mon, rng):
    with sut.scratch() as d:
        wd, srcs = scene(rng, d, 1)
        before = sut.tree(d)
        s = srcs[0]
        for args in (["-o", "XML", s], ["-o", "json", s], ["--output=MARGO2", s], ["-o"], [], ["-o", "JSON"], ["-q", s],
                     ["--unknown", s], ["-i"], ["-o", "", s], [s, "-o"], ["-o", "JSON-b", s], ["-o", near(rng), s], [f"--output={near(rng)}", s], [s, "-o", near(rng)], ["-ext"], ["--ini", "user.ini"]):
            how = rng.choice(("process", "argv", "process"))
            rc, out, err = start(how, wd, args)
            mon.count("command_lines")
            mon.count("processes", how == "process")
            mon.count("refused")
            mon.case((how, tuple(os.path.basename(a) for a in args), spec["seed"], spec["i"]))
            label = f"{how} {' '.join(os.path.basename(x) for x in args)}"
            if rc != 2:
                mon.fail(f"{label}: exit status {rc} instead of 2", args)
            if "usage" not in err.lower():
                mon.fail(f"{label}: no usage text: {err[-200:]!r}", args)
            bad = sut.tree(d)
            if bad != before:
                mon.fail(f"{label}: changed {sorted(k for k in set(bad) | set(before) if bad.get(k, 0) != before.get(k, 0))[:3]}", args)
                return


def info_request(spec, mon, rng):
    with sut.scratch() as d:
        wd, srcs = scene(rng, d, 1)
        before = sut.tree(d)
        for args in (["-h"], ["--help"], ["-v"], ["--version"], ["-v"] + srcs, ["-o", "JSON", "-h"] + srcs, srcs + ["--version"]):
            how = rng.choice(("process", "argv"))
            rc, out, _ = start(how, wd, args)
            mon.count("command_lines")
            mon.count("processes", how == "process")
            mon.count("information_requests")
            mon.case((how, tuple(os.path.basename(a) for a in args), spec["seed"], spec["i"]))
            if rc != 0:
                mon.fail(f"{how} {args}: exit status {rc}", args)
            if any(a in ("-h", "--help") for a in args):
                if "usage" not in out.lower() or any(x not in out for x in ("--output", "--ini", "-ext", "--version")):
                    mon.fail(f"{how} {args}: the help text lacks an option: {out[:300]!r}", args)
            elif not re.search(r"\d+\.\d+", out):
                mon.fail(f"{how} {args}: no version in {out!r}", args)
            if sut.tree(d) != before:
                mon.fail(f"{how} {args}: files changed", args)
                return


def directory(spec, mon, rng):
    """A directory as source: the answer comes from the real standard input."""
    with sut.scratch() as d:
        wd = os.path.join(d, "w")
        src = os.path.join(d, "src")
        os.mkdir(wd)
        os.mkdir(src)
        with open(os.path.join(wd, "defaults.ini"), "w", encoding="utf-8") as f:
            f.write(sut.repo_defaults())
        ext = rng.choice((None, "rtcm3", "bin", "dat"))
        names = [f"f{i}.{rng.choice((ext or 'rtcm3', ext or 'rtcm3', 'other'))}" for i in range(rng.randrange(2, 6))]
        names.append(f"last.{ext or 'rtcm3'}")
        for n in names:
            with open(os.path.join(src, n), "wb") as f:
                f.write(gen.msm_frame(rng, gen.msm(rng, 1077, time="valid", in_range=True, values="small", valid=1)))
        mode = rng.choice(sut.MODES)
        cand = [n for n in names if n.endswith("." + (ext or "rtcm3"))]
        pick = sorted(rng.sample(range(1, len(cand) + 1), rng.randrange(0, len(cand) + 1)))
        args = ["-o", mode] + (["-ext", ext] if ext else []) + [rng.choice((src, os.path.relpath(src, wd)))]
        rng.shuffle(pick)
        rc, out, err = process(wd, args, (" ".join(map(str, pick)) or "0") + "\n")
        mon.count("command_lines")
        mon.count("processes")
        mon.case((tuple(names), tuple(pick), mode, ext))
        if rc != 0:
            mon.fail(f"directory: exit {rc}: {err[-200:]!r}", args)
            return
        shown = {int(m[1]): os.path.basename(m[2]) for m in re.finditer(r"^\s*(\d+) : '(.*)'", out, re.M)}
        if sorted(shown) != list(range(1, len(cand) + 1)) or sorted(shown.values()) != sorted(cand):
            mon.fail(f"directory: offered {shown} of {names} for extension {ext}", args)
            return
        want = {os.path.splitext(shown[i])[0] + f"-{mode}" for i in pick}
        got = {n for n in os.listdir(src) if os.path.isdir(os.path.join(src, n))}
        if got != want:
            mon.fail(f"directory: chose {pick} of {shown}: converted {sorted(got)}", args)
