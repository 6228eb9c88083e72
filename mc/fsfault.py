"""Interposed file layer: every file under a watched directory is opened through a logging, fault-injecting FileIO.

Covers builtins.open / io.open (hence pathlib), os.open-based writes are not used by the project. The log records every
operation that changes a file, in order, so that every crash image can be rebuilt; `plan` maps an operation index to a
fault. File operations are also scheduling points.
"""
import builtins
import errno
import io
import os
from . import sched

_real_open = io.open


class Layer:
    """log entries: (op, path, detail...)"""

    def __init__(self, root, plan=None, kinds=("read", "write")):
        self.root = os.path.realpath(root)
        self.plan = plan or {}
        self.log = []
        self.ops = []       # (index, kind, path, size) of faultable operations
        self.hit = []
        self.opened = []

    def __enter__(self):
        global ACTIVE
        self.prev = (builtins.open, io.open)
        builtins.open = io.open = self._open
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.prev
        for f in self.opened:
            try:
                io.FileIO.close(f)
            except Exception:
                pass

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fspath(file))
        except TypeError:
            path = None
        if path is None or isinstance(path, bytes) or not path.startswith(self.root + os.sep) or "b" not in mode:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fault = self.fault("open", path, 0)
        if fault:
            raise OSError(getattr(errno, fault), os.strerror(getattr(errno, fault)), path)
        if "w" in mode or "x" in mode:
            self.log.append(("create", path))
        raw = File(self, path, mode.replace("b", ""))
        self.opened.append(raw)
        if buffering == 0:
            return raw
        if "+" in mode:
            return io.BufferedRandom(raw)
        if "r" in mode:
            return io.BufferedReader(raw)
        return io.BufferedWriter(raw)

    def fault(self, kind, path, size):
        i = len(self.ops)
        self.ops.append((i, kind, os.path.basename(path), size))
        f = self.plan.get(i)
        if f is not None:
            self.hit.append((i, kind, f))
        return f


class File(io.FileIO):
    def __init__(self, layer, path, mode):
        self._l, self._p = layer, path
        super().__init__(path, mode)

    def _short(self, kind, n):
        f = self._l.fault(kind, self._p, n)
        if f is None:
            return n
        if f == "EMPTY":  # as at the end of the file
            return 0
        if isinstance(f, str):
            raise OSError(getattr(errno, f), os.strerror(getattr(errno, f)), self._p)
        frac = f  # a number: how many bytes may be transferred at most (or a fraction)
        return max(1, min(n, int(frac if frac >= 1 else n * frac))) if n else n

    def readinto(self, b):
        sched.point("io")
        m = memoryview(b).cast("B")
        n = self._short("read", len(m))
        r = super().readinto(m[:n])
        sched.point("io")
        return r

    def read(self, size=-1):
        sched.point("io")
        if size is None or size < 0:
            size = max(0, os.fstat(self.fileno()).st_size - self.tell())
            r = b""
            while len(r) < size:
                part = super().read(self._short("read", size - len(r)))
                if not part:
                    break
                r += part
            return r
        r = super().read(self._short("read", size))
        sched.point("io")
        return r

    def readall(self):
        return self.read(-1)

    def write(self, b):
        sched.point("io")
        m = memoryview(b).cast("B")
        n = self._short("write", len(m))
        off = self.tell()
        r = super().write(m[:n])
        self._l.log.append(("write", self._p, off, bytes(m[:r])))
        sched.point("io")
        return r

    def close(self):
        if not self.closed and self.writable():
            f = self._l.fault("close", self._p, 0)
            if isinstance(f, str):
                super().close()
                raise OSError(getattr(errno, f), os.strerror(getattr(errno, f)), self._p)
        super().close()

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._short("truncate", 0)
        r = super().truncate(size)
        self._l.log.append(("truncate", self._p, size))
        return r


def crash_images(log, path, cuts):
    """All contents `path` can have when the process stops: after each prefix of the log, and inside each write.

    cuts(n) -> the byte counts at which a write of n bytes may be torn. None means the file does not exist.
    """
    cur = None
    yield (0, None, cur)
    for i, ent in enumerate(log):
        if ent[1] != path:
            continue
        if ent[0] == "create":
            cur = b""
            yield (i + 1, None, cur)
        elif ent[0] == "truncate":
            cur = (cur or b"")[:ent[2]].ljust(ent[2], b"\0")
            yield (i + 1, None, cur)
        elif ent[0] == "write":
            off, data = ent[2], ent[3]
            for c in cuts(len(data)):
                if 0 < c < len(data):
                    yield (i, c, _apply(cur, off, data[:c]))
            cur = _apply(cur, off, data)
            yield (i + 1, None, cur)
        elif ent[0] == "rename":
            yield (i + 1, None, cur)


def _apply(cur, off, data):
    cur = cur or b""
    if len(cur) < off:
        cur = cur.ljust(off, b"\0")
    return cur[:off] + data + cur[off + len(data):]
