"""Calls in a process in which the code under test is loaded but has never run before.

A template process imports the code and waits; every call is answered by a fork of it, so nothing that earlier
calls left behind (class attributes, module globals, caches) can be seen.
"""

from __future__ import annotations

import atexit
import importlib
import os
import pickle
import signal
import struct
import subprocess
import sys
import traceback

CPU = 120  # s of CPU time of one call
TIMEOUT = "not terminating"
SUT = "raised by the code under test: "

_proc = None
_owner = None


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError("pristine process ended")
    n, = struct.unpack("<Q", h)
    b = f.read(n)
    if len(b) < n:
        raise EOFError("pristine process ended")
    return pickle.loads(b)


def _server():
    global _proc, _owner
    if _proc is None or _owner != os.getpid() or _proc.poll() is not None:
        _proc = subprocess.Popen([sys.executable, "-m", "rtmon.pristine"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _owner = os.getpid()
        atexit.register(_stop)
    return _proc


def _stop():
    global _proc
    if _proc is not None and _owner == os.getpid():
        _proc.stdin.close()
        _proc.wait(10)
        _proc = None


class PristineError(Exception):
    """The call raised."""


def calls(module, func, arglists, between=None):
    """[func(*args) for args in arglists], each in a fork of its own.

    between: functions to call here after the corresponding call.
    """
    p = _server()
    out = []
    groups = [arglists] if between is None else [[a] for a in arglists]
    for i, g in enumerate(groups):
        _send(p.stdin, (module, func, list(g)))
        for _ in g:
            ok, v = _recv(p.stdout)
            out.append(v if ok else PristineError(v))
        if between is not None:
            between[i]()
    if any(isinstance(v, PristineError) and v.args[0] == TIMEOUT for v in out):
        from . import sut
        raise sut.CaseTimeout()
    for v in out:
        if isinstance(v, PristineError):
            raise v
    return out


def call(module, func, *args):
    return calls(module, func, [args])[0]


def main():
    from . import sut

    sut.load()
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    src = sys.stdin.buffer
    while True:
        try:
            module, func, lists = _recv(src)
        except EOFError:
            return
        importlib.import_module(module)  # imports only, shared by the forks
        for args in lists:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
                try:
                    res = True, getattr(sys.modules[module], func)(*args)
                except BaseException as ex:  # pylint: disable=broad-exception-caught
                    tb = traceback.extract_tb(ex.__traceback__)
                    own = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
                    repo = os.path.realpath(sut.REPO) + os.sep
                    inner = [f.filename for f in tb if os.path.realpath(f.filename).startswith((repo, own))]
                    bad = bool(inner) and os.path.realpath(inner[-1]).startswith(repo)
                    res = False, (SUT if bad else "") + traceback.format_exc()
                try:
                    b = pickle.dumps(res)
                except Exception:  # pylint: disable=broad-exception-caught
                    b = pickle.dumps((False, traceback.format_exc()))
                with os.fdopen(w, "wb") as f:
                    f.write(b)
                os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                b = f.read()
            _, st = os.waitpid(pid, 0)
            if not b:
                slow = os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGVTALRM
                b = pickle.dumps((False, TIMEOUT if slow else "the forked process died"))
            out.write(struct.pack("<Q", len(b)) + b)
            out.flush()


if __name__ == "__main__":
    main()
