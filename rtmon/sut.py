"""Access to the code under test (/repo working tree), scratch areas, product readers."""

from __future__ import annotations

import builtins
import contextlib
import dataclasses
import io
import json
import os
import re
import shutil
import sys
import tempfile

REPO = os.environ.get("RTMON_REPO", "/repo")
MODES = ("MARGO", "JSON", "JSON-B", "JARGO")

_loaded = {}


def load():
    """Import the code under test once per process."""
    if _loaded:
        return _loaded
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import run_conversion
    import converter_top
    import controls
    import decoder_top
    import gnss_types
    import utilities
    import logger

    for m in (run_conversion, converter_top, controls, decoder_top, gnss_types, utilities):
        f = os.path.realpath(m.__file__)
        assert f.startswith(os.path.realpath(REPO) + os.sep), f
    _loaded.update(run=run_conversion, conv=converter_top, controls=controls,
                   dec=decoder_top, types=gnss_types, util=utilities, logger=logger)
    return _loaded


# --- scratch -------------------------------------------------------------------------

_scratch_root = None


def scratch_root() -> str:
    global _scratch_root
    if _scratch_root is None or not os.path.isdir(_scratch_root):
        base = os.environ.get("RTMON_SCRATCH")
        _scratch_root = tempfile.mkdtemp(prefix="rtmon-", dir=base)
    return _scratch_root


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c", dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Silence stdout/stderr of the code under test, collect it."""
    out = io.StringIO()
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = out
    try:
        yield out
    finally:
        sys.stdout, sys.stderr = so, se


@contextlib.contextmanager
def chdir(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def release_logger():
    """Return the logging singleton to its initial state after an escaped exception."""
    try:
        load()["logger"].LOGGER_CF.deinit()
    except Exception:  # pylint: disable=broad-exception-caught
        pass


# --- running -------------------------------------------------------------------------


class CaseTimeout(BaseException):
    """CPU watchdog of a case fired."""


class RunInfo:
    __slots__ = ("exc", "console")


def repo_defaults() -> str:
    with open(os.path.join(REPO, "defaults.ini"), encoding="utf-8") as f:
        return f.read()


def run_main(cwd: str, args: list[str], answer: str | None = None, via_argv: bool = True) -> RunInfo:
    """Call main() as the command line does, in directory 'cwd'."""
    info = RunInfo()
    info.exc = None
    run = load()["run"]
    old_argv, old_input = sys.argv, builtins.input

    def fake_input(prompt=""):
        print(prompt)
        if answer is None:
            raise EOFError
        return answer

    with chdir(cwd), quiet() as out:
        sys.argv = ["run_conversion.py"] + list(args)
        builtins.input = fake_input
        try:
            if via_argv:
                run.main(None)
            else:
                run.main(" ".join(args))
        except CaseTimeout:
            raise
        except BaseException as ex:  # pylint: disable=broad-exception-caught
            info.exc = ex
        finally:
            sys.argv, builtins.input = old_argv, old_input
            if info.exc is not None:
                release_logger()
    info.console = out.getvalue()
    return info


def tree(root: str) -> dict[str, bytes | None]:
    """{relative path: content, None for a directory}"""
    rv: dict[str, bytes | None] = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            p = os.path.normpath(os.path.join(rel, d))
            rv[p] = None
        for fn in files:
            p = os.path.normpath(os.path.join(rel, fn))
            with open(os.path.join(base, fn), "rb") as f:
                rv[p] = f.read()
    return rv


class Conversion:
    """One file converted by main() in a scratch folder of its own."""

    __slots__ = ("exc", "console", "files", "log", "outside", "mode")


def convert(data: bytes, mode: str = "JSON", ini: str | None = None, defaults: str | None = None,
            stem: str = "src", ext: str = ".rtcm3") -> Conversion:
    rv = Conversion()
    rv.mode = mode
    with scratch() as d:
        wd = os.path.join(d, "cwd")
        sd = os.path.join(d, "data")
        os.mkdir(wd)
        os.mkdir(sd)
        with open(os.path.join(wd, "defaults.ini"), "w", encoding="utf-8") as f:
            f.write(repo_defaults() if defaults is None else defaults)
        src = os.path.join(sd, stem + ext)
        with open(src, "wb") as f:
            f.write(data)
        args = ["-o", mode]
        if ini is not None:
            p = os.path.join(wd, "user.ini")
            with open(p, "w", encoding="utf-8") as f:
                f.write(ini)
            args += ["-i", p]
        info = run_main(wd, args + [src])
        rv.exc, rv.console = info.exc, info.console
        full = tree(sd)
        pre = f"{stem}-{mode}"
        rv.files = {os.path.relpath(k, pre): v for k, v in full.items() if k.startswith(pre + os.sep)}
        rv.outside = sorted(k for k in full if k != pre and not k.startswith(pre + os.sep) and k != stem + ext)
        if full.get(stem + ext) != data:
            rv.outside.append("<source changed>")
        log = rv.files.pop(f"{stem}-log.txt", None)
        rv.log = None if log is None else log.decode("utf-8", "replace")
    return rv


def make_controls(c):
    """Boxed controls of the code under test for reference Controls 'c'."""
    with scratch() as d:
        p = os.path.join(d, "x.ini")
        with open(p, "w", encoding="utf-8") as f:
            f.write(c.ini())
        cs = load()["controls"].ConverterControls()
        cs.init_from_file(p)
        box = cs.boxed_controls
    if box is None:
        raise ValueError("valid settings were not accepted")
    return box


_boxes = {}


def new_converter(mode: str, wfld: str, c=None):
    from . import ref

    c = c or ref.Controls()
    key = c.ini()
    if key not in _boxes:
        _boxes[key] = make_controls(c)
    with quiet():
        conv = load()["conv"].ConverterFactory(mode)(wfld, _boxes[key])
    if conv is None:
        raise ValueError(f"no converter for mode {mode}")
    return conv


# --- readers -------------------------------------------------------------------------


def plain(x):
    """Result object -> nested plain data (as the JSON documents would show it)."""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if dataclasses.is_dataclass(x):
        return {f.name: plain(getattr(x, f.name)) for f in dataclasses.fields(x)}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    slots = getattr(type(x), "__slots__", None)
    if slots:
        return {s: plain(getattr(x, s)) for s in slots}
    if hasattr(x, "__dict__"):
        return {k: plain(v) for k, v in vars(x).items()}
    return repr(x)


PROGRESS = re.compile(r"(\d+(?:\.\d+)?)%, (\d+) messages, prs-dec-prnt errors (\d+)-(\d+)-(\d+)")


def log_facts(log: str | None):
    """(last progress tuple, verdict)"""
    if log is None:
        return None, None
    last, verdict = None, None
    n = 0
    for line in log.splitlines():
        m = PROGRESS.search(line)
        if m:
            last = (float(m[1]),) + tuple(int(m[i]) for i in range(2, 6))
        for key, txt in (("ok", "Finished without errors."), ("errors", "Finished with errors."),
                         ("terminated", "Decoding was terminated.")):
            if txt in line:
                verdict = key if verdict is None else "several"
                n += 1
    return last, verdict


def load_json(raw: bytes):
    """Strict JSON: UTF-8, no NaN, no duplicate keys inside an object."""

    def pairs(p):
        d = {}
        for k, v in p:
            if k in d:
                raise ValueError(f"duplicate key {k}")
            d[k] = v
        return d

    def bad(x):
        raise ValueError(f"constant {x}")

    return json.loads(raw.decode("utf-8"), object_pairs_hook=pairs, parse_constant=bad)
