"""C23: selection of sources."""
import ast
import os
import re

from .common import *

ID = "C23"
RULE = ("scratch directories (also with glob characters, spaces and non-ASCII in names) holding files of the requested and other "
        "extensions, look-alikes, hidden files and subdirectories with files; random answers (any order, repetitions, out of "
        "range, negative, non-numeric, file names, empty) given to the prompt; the numbering shown and the files selected or converted are "
        "compared with an independent listing; argument lists of existing, missing and directory paths, absolute and relative; "
        "non-trivial: directories with at least one candidate, lists with at least one path")
MINIMUM = {"directories": 400, "files_offered": 900, "answers": 800, "argument_lists": 300, "conversions": 60}


REPEAT = 10


def jobs(tier, seed):
    k = 1 if tier == "quick" else 15
    for i in range(40 * k):
        yield dict(kind="dir", i=i, seed=seed)
        yield dict(kind="args", i=i, seed=seed)
    for i in range(4 * k):
        yield dict(kind="many", i=i, seed=seed)
    for i in range(30 * k):
        yield dict(kind="main", i=i, seed=seed)


DIRS = ("plain", "with space", "br[ac]kets", "st*r", "quest?on", "[a-z]", "日本", "dot.ted", "x.rtcm3.d", "back\\slash", "{a,b}", "~home")
STEMS = ("a", "b", "c", "data1", "2024-01-01", "with space", "[x]", "y*", "z?", "q'uote", "dq\"", "ы", "a.b", "rtcm3", "A", "-dash", "%d", "{0}")
EXTS = ("rtcm3", "rtcm3", "rtcm", "RTCM3", "bin", "dat", "rtcm3x", "xrtcm3", "rtcm3.bak", "obs", "")
ODD = ("ini", "json", "txt", "log", "py", "md", "gz", "zip", "bak", "tmp", "rtcm2", "ubx", "INI", "exe", "conf")


SPACED = (" lead", "trail ", " both ", "~", "$HOME", "a\tb", "#x", "x;y", "&", "--", "=", "%TMP%", "a,b", "con")


def fill(rng, d, stems=STEMS):
    made = []
    for _ in range(rng.randrange(0, 14)):
        e = rng.choice(EXTS + ODD[:3] + ((("txt ", " ") + ODD) if stems is not STEMS else ()))
        n = rng.choice(stems) + ("." + e if e else "")
        if not os.path.exists(os.path.join(d, n)):
            made.append(n)
            with open(os.path.join(d, n), "wb") as f:
                f.write(b"")
    if rng.random() < .5:
        s = os.path.join(d, rng.choice(("sub", "s.d")))
        os.makedirs(s, exist_ok=True)
        for n in ("inner.rtcm3", "a.rtcm3", "x.bin"):
            with open(os.path.join(s, n), "wb") as f:
                f.write(b"")
    return made


def listing(d, ext):
    return {os.path.join(d, n) for n in os.listdir(d)
            if n.endswith("." + ext) and not n.startswith(".") and os.path.isfile(os.path.join(d, n))}


NUM = re.compile(r"^\s*(\d+)\s*[:.)]\s*(.+?)\s*$")


def shown(console, d):
    """{number: path} as printed"""
    rv = {}
    dup = False
    for line in console.splitlines():
        m = NUM.match(line)
        if not m:
            continue
        t = m[2]
        try:
            t = ast.literal_eval(t)
        except (ValueError, SyntaxError):
            pass
        if not isinstance(t, str):
            continue
        if not os.path.isabs(t):
            t = os.path.join(d, t)
        dup |= int(m[1]) in rv
        rv[int(m[1])] = os.path.abspath(t)
    return rv, dup


def call(args, ext, answer):
    import builtins
    asked = []

    def fake(prompt=""):
        asked.append(prompt)
        print(prompt)
        return answer() if callable(answer) else answer

    old = builtins.input
    with sut.quiet() as out:
        builtins.input = fake
        try:
            fn = sut.load()["run"].make_list_of_source_files
            rv = fn(args) if ext is None else fn(args, ext)
        finally:
            builtins.input = old
    return rv, out.getvalue(), asked


def answers(rng, n, names=()):
    """(text, set of numbers or None when nothing may be selected)"""
    k = rng.randrange(9)
    if k == 0:
        return "", set()
    if k == 1:
        t = rng.choice(("abc", "1 x", "all", "1,2", "1-3", "x 1", "1.5", "0x1", "*"))
        if names and rng.random() < .6:  # names are no numbers
            t = os.path.basename(rng.choice(sorted(names)))
            t = rng.choice((t, os.path.splitext(t)[0], rng.choice(sorted(names)), "1 " + t, t + " 1"))
            if all(w.strip().lstrip("+-").isdecimal() for w in t.split()):
                t = "abc"
        return t, set()
    if k == 2:
        nums = [rng.choice((0, -1, n + 1, n + 100, -n, 10 ** 12)) for _ in range(3)]
    elif k == 3:
        nums = [rng.choice((0, n + 1, -1, rng.randint(1, max(n, 1)))) for _ in range(4)]
    elif k == 4:
        nums = list(range(1, n + 1))
    elif k == 5:
        nums = list(range(n, 0, -1))
    else:
        nums = [rng.randint(1, max(1, n)) for _ in range(rng.randrange(1, 5))]
    if k != 3:
        nums = list(dict.fromkeys(nums))
    return " ".join(map(str, nums)), {x for x in nums if 1 <= x <= n}


def run(spec, mon):
    rng = rng_of(ID, spec)
    k = spec["kind"]
    if k == "dir":
        for _ in range(12):
            with sut.scratch() as base:
                d = os.path.join(base, rng.choice(DIRS))
                os.mkdir(d)
                fill(rng, d)
                if rng.random() < .3:
                    with open(os.path.join(d, ".hidden"), "wb"):
                        pass
                ext = rng.choice((None, None, "rtcm", "bin", "dat", "RTCM3", "rtcm3", "nothing", "rtcm3.bak"))
                want = listing(d, ext or "rtcm3")
                mon.count("directories")
                for _ in range(4):
                    t, sel = answers(rng, len(want), want)
                    arg = d if rng.random() < .7 else d + os.sep
                    got, console, asked = call([arg], ext, t)
                    num, dup = shown(console, d)
                    detail = {"files": sorted(os.listdir(d)), "ext": ext, "answer": t, "dir": os.path.basename(d)}
                    mon.case((sorted(os.listdir(d)), ext, t, os.path.basename(d)) if want else None)
                    mon.count("answers")
                    if not want:
                        if got:
                            mon.fail(f"{got} selected from a directory without such files", detail)
                        if asked:
                            mon.fail("asked for a selection although there is nothing to select", detail)
                        continue
                    mon.count("files_offered", len(num))
                    if dup or set(num) != set(range(1, len(want) + 1)) or set(num.values()) != want:
                        mon.fail(f"offered {sorted(os.path.basename(x) for x in num.values())}, present "
                                 f"{sorted(os.path.basename(x) for x in want)}", detail)
                        continue
                    if len(asked) != 1:
                        mon.fail(f"asked {len(asked)} times", detail)
                    exp = {num[i] for i in sel}
                    if {os.path.abspath(p) for p in got} != exp:
                        mon.fail(f"answer {t!r} selected {sorted(map(os.path.basename, got))}, expected "
                                 f"{sorted(map(os.path.basename, exp))}", detail)
                mon.sample(detail, 1)
    elif k == "many":  # far more files than a screen holds
        with sut.scratch() as base:
            n = rng.choice((11, 40, 120, 300))
            for i in range(n):
                with open(os.path.join(base, f"f{i:03d}.rtcm3"), "wb"):
                    pass
            for pick in (range(1, n + 1), range(n, 0, -1), rng.sample(range(1, n + 1), rng.randrange(1, n)), [n], [10, 11]):
                t = " ".join(map(str, pick))
                got, console, _ = call([base], None, t)
                num, dup = shown(console, base)
                mon.count("answers")
                mon.count("files_offered", len(num))
                mon.case((n, t))
                if dup or sorted(num) != list(range(1, n + 1)) or set(num.values()) != listing(base, "rtcm3"):
                    mon.fail(f"{len(num)} of {n} files offered", n)
                elif sorted(os.path.abspath(p) for p in got) != sorted(num[i] for i in pick):
                    mon.fail(f"{len(got)} files selected by {len(pick)} numbers out of {n} files", t)
            paths = [os.path.join(base, f"f{i:03d}.rtcm3") for i in rng.sample(range(n), n)]
            got, _, _ = call(paths, None, "1")
            mon.count("argument_lists")
            mon.case(tuple(paths))
            if [os.path.abspath(p) for p in got] != paths:
                mon.fail(f"{len(got)} of {n} given files selected, or in another order", n)
    elif k == "args":
        for _ in range(12):
            with sut.scratch() as base, sut.chdir(base):
                d = os.path.join(base, rng.choice(DIRS))
                os.mkdir(d)
                fill(rng, d, rng.choice((STEMS, STEMS + SPACED)))
                names = [n for n in os.listdir(d) if os.path.isfile(os.path.join(d, n))]
                rng.shuffle(names)
                args, want, missing = [], [], []
                for n in names[:rng.randrange(0, 8)]:
                    p = os.path.join(d, n)
                    args.append(p if rng.random() < .5 else os.path.relpath(p, base))
                    want.append(p)
                for _ in range(rng.randrange(0, 3)):
                    m = os.path.join(d, rng.choice(("absent.rtcm3", "nope", "sub2/none.rtcm3")))
                    if m not in args:
                        i = rng.randrange(0, len(args) + 1)
                        args.insert(i, m)
                        missing.append(m)
                if len(args) >= 1 and rng.random() < .2:
                    args.append(d)  # a directory beside files is no source
                if not args or args == [d]:
                    continue
                got, console, asked = call(args, rng.choice((None, "bin")), "1 2 3")
                mon.count("argument_lists")
                mon.case((os.path.basename(d), [os.path.basename(a) for a in args]))
                detail = {"args": args}
                if [os.path.abspath(p) for p in got] != want:
                    mon.fail(f"arguments {[os.path.basename(a) for a in args]} gave {[os.path.basename(a) for a in got]}", detail)
                for m in missing:
                    if os.path.basename(m) not in console:
                        mon.fail(f"the missing file {os.path.basename(m)} is not reported", detail)
                if asked:
                    mon.fail("asked for a selection although files were given", detail)
    else:
        # through main(): which sources get a product folder
        for _ in range(3):
            with sut.scratch() as base:
                d = os.path.join(base, rng.choice(("data", "with space", "br[ac]k")))
                wd = os.path.join(base, "w")
                os.mkdir(d)
                os.mkdir(wd)
                with open(os.path.join(wd, "defaults.ini"), "w", encoding="utf-8") as f:
                    f.write(sut.repo_defaults())
                stems = rng.sample(("a", "b", "c", "d1", "e e", "f.g"), rng.randrange(1, 6))
                ext = rng.choice((None, "bin"))
                for s in stems:
                    e = rng.choice(("rtcm3", "rtcm3", "bin"))
                    with open(os.path.join(d, f"{s}.{e}"), "wb") as f:
                        f.write(gen.good_frame(rng, 1005))
                want = listing(d, ext or "rtcm3")
                t, sel = answers(rng, len(want))
                before = set(os.listdir(d))
                args = ["-o", "JSON"] + (["-ext", ext] if ext else []) + [d]
                info = sut.run_main(wd, args, answer=t)
                mon.count("conversions")
                mon.case((sorted(before), ext, t))
                num, _ = shown(info.console, d)
                detail = {"files": sorted(before), "ext": ext, "answer": t}
                if info.exc is not None:
                    mon.fail(f"main() raised {info.exc!r}", detail)
                    continue
                exp = {os.path.splitext(os.path.basename(num[i]))[0] + "-JSON" for i in sel if i in num}
                new = set(os.listdir(d)) - before
                if new != exp or (want and set(num.values()) != want):
                    mon.fail(f"answer {t!r} converted {sorted(new)}, expected {sorted(exp)}", detail)
                for f in new & exp:
                    if not os.path.isfile(os.path.join(d, f, "BASE", "RefPoint-1005.json")) and \
                            not any("1005" in x for _, _, fs in os.walk(os.path.join(d, f)) for x in fs):
                        mon.fail(f"{f} holds no products", detail)
