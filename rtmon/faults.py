"""Fault injection around the code under test: files that fail to open, read or write."""

from __future__ import annotations

import builtins
import contextlib
import errno
import io
import os


class FaultyReader(io.RawIOBase):
    """Delivers 'limit' bytes of a file, then raises."""

    def __init__(self, path, limit, exc):
        super().__init__()
        self._f = _real_open(path, "rb", buffering=0)
        self.name, self.mode = path, "rb"
        self._limit = limit
        self._exc = exc
        self.fired = 0

    def readable(self):
        return True

    def readinto(self, b):
        left = self._limit - self._f.tell()
        if left <= 0:
            self.fired += 1
            raise self._exc
        data = self._f.read(min(len(b), left))
        b[: len(data)] = data
        return len(data)

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def fileno(self):
        return self._f.fileno()

    def close(self):
        self._f.close()
        super().close()


class FaultyWriter(io.RawIOBase):
    """Accepts 'limit' bytes, then every write fails."""

    def __init__(self, path, mode, limit, exc, stats):
        super().__init__()
        self._f = _real_open(path, "ab" if "a" in mode else "wb", buffering=0)
        self.name, self.mode = path, self._f.mode
        self._left = limit
        self._exc = exc
        self._stats = stats

    def writable(self):
        return True

    def write(self, b):
        n = len(b)
        if n > self._left:
            self._stats["fired"] += 1
            raise self._exc
        self._left -= n
        self._f.write(bytes(b))
        return n

    def fileno(self):
        return self._f.fileno()

    def close(self):
        if not self.closed:
            self._f.close()
        super().close()


_real_open = io.open
_real_makedirs = os.makedirs
_real_mkdir = os.mkdir


class Plan:
    """What shall fail. Predicates get the absolute path."""

    def __init__(self):
        self.open_fail = lambda p, mode: False  # creating/opening for writing
        self.read_open_fail = lambda p: False
        self.read_limit = lambda p: None  # bytes before reading fails
        self.read_exc_of = lambda p: None  # the exception, if it depends on the file
        self.write_limit = lambda p: None
        self.dir_fail = lambda p: False
        self.read_exc = OSError(errno.EIO, "injected read error")
        self.write_exc = OSError(errno.ENOSPC, "injected write error")
        self.open_exc = OSError(errno.EACCES, "injected open error")
        self.stats = {"fired": 0}
        self.readers = []


@contextlib.contextmanager
def inject(plan: Plan):
    def my_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.abspath(os.fspath(file))
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        writing = any(ch in mode for ch in "wax+")
        if writing:
            if plan.open_fail(path, mode):
                plan.stats["fired"] += 1
                raise plan.open_exc
            lim = plan.write_limit(path)
            if lim is not None:
                raw = FaultyWriter(path, mode, lim, plan.write_exc, plan.stats)
                buf = io.BufferedWriter(raw, buffer_size=max(1, buffering) if buffering > 1 else 8192)
                if "b" in mode:
                    return buf
                return io.TextIOWrapper(buf, encoding=encoding, errors=errors, newline=newline,
                                        line_buffering=buffering == 1)
        else:
            if plan.read_open_fail(path):
                plan.stats["fired"] += 1
                raise plan.open_exc
            lim = plan.read_limit(path)
            if lim is not None:
                raw = FaultyReader(path, lim, plan.read_exc_of(path) or plan.read_exc)
                plan.readers.append(raw)
                if buffering == 0:
                    return raw
                buf = io.BufferedReader(raw, buffer_size=4096)
                return buf if "b" in mode else io.TextIOWrapper(buf, encoding=encoding)
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    def my_makedirs(name, *a, **k):
        if plan.dir_fail(os.path.abspath(name)):
            plan.stats["fired"] += 1
            raise plan.open_exc
        return _real_makedirs(name, *a, **k)

    def my_mkdir(name, *a, **k):
        if not isinstance(name, int) and plan.dir_fail(os.path.abspath(os.fsdecode(name))):
            plan.stats["fired"] += 1
            raise plan.open_exc
        return _real_mkdir(name, *a, **k)

    saved = builtins.open, io.open, os.makedirs, os.mkdir
    builtins.open, io.open, os.makedirs, os.mkdir = my_open, my_open, my_makedirs, my_mkdir
    try:
        yield plan
    finally:
        builtins.open, io.open, os.makedirs, os.mkdir = saved


def fired(plan: Plan) -> int:
    return plan.stats["fired"] + sum(r.fired for r in plan.readers)
