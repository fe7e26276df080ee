"""A fault-injecting file layer over one real scratch directory.

`open` on a path inside the directory gives a normal Python file whose lowest
layer consults the fault of the operation at hand.  Everything above it (text
and buffering layers, the library) is the real code.  Buffers are small, so
one save passes many places where it can fail.
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import tempfile

from . import boot
from .core import BadPlan  # noqa: F401

_open, _ioopen = builtins.open, io.open
_replace, _rename, _fsync, _unlink, _remove = os.replace, os.rename, os.fsync, os.unlink, os.remove

KINDS = ("nospace", "ioerror", "crash", "short", "openerror", "closeerror", "readerror", "shortread")


class SimCrash(BaseException):
    """The process dies here."""


class Disk:
    """The layer for one run. `fault` is that of the operation at hand."""

    cur = None

    def __init__(self, ctx, buf=64):
        base = os.path.join(boot.VERIF, "scratch")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(dir=base)
        self.ctx = ctx
        self.buf = buf
        self.begin(None)

    # ---------------------------------------------------------------- operations
    def begin(self, fault):
        self.fault = fault
        self.count = {"write": 0, "read": 0, "open": 0, "close": 0, "meta": 0}
        self.full = False
        self.dead = False
        self.fired = None
        self.epoch = getattr(self, "epoch", 0) + 1
        if fault:
            self.ctx.planned[fault["kind"]] += 1

    def end(self):
        f, self.fault = self.fired, None
        self.dead = self.full = False
        self.epoch += 1  # what the operation left open can no longer reach the disk
        return f

    def hit(self, event, kinds):
        """The fault to apply at this event, if it is the chosen one."""
        self.count[event] += 1
        f = self.fault
        if f and f["kind"] in kinds and self.count[event] == f["at"]:
            self.fired = f["kind"]
            self.ctx.fired[f["kind"]] += 1
            return f
        return None

    def path(self, name):
        return os.path.join(self.dir, name)

    def mine(self, file):
        try:
            return os.path.abspath(os.fspath(file)).startswith(self.dir + os.sep)
        except TypeError:
            return False

    def content(self, name):
        try:
            with _open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    # ---------------------------------------------------------------- installation
    def __enter__(self):
        Disk.cur = self
        builtins.open = io.open = sim_open
        os.replace, os.rename = sim_replace, sim_rename
        os.unlink = os.remove = sim_unlink
        os.fsync = sim_fsync
        return self

    def __exit__(self, *a):
        Disk.cur = None
        builtins.open, io.open = _open, _ioopen
        os.replace, os.rename, os.fsync, os.unlink, os.remove = _replace, _rename, _fsync, _unlink, _remove
        shutil.rmtree(self.dir, ignore_errors=True)


class Raw(io.FileIO):
    """The lowest layer of one open file."""

    def __init__(self, disk, file, mode):
        self.disk, self.epoch = disk, disk.epoch
        super().__init__(file, mode)

    def write(self, b):
        d = self.disk
        b = bytes(b)
        if d.dead or self.epoch != d.epoch:
            return len(b)  # nobody is there any more to write it
        if d.full:
            raise OSError(errno.ENOSPC, "No space left on device (simulated)")
        f = d.hit("write", ("nospace", "ioerror", "crash", "short"))
        if f:
            k = f["kind"]
            part = b[: int(len(b) * f["frac"])]
            if k == "short":
                return super().write(part or b[:1])
            if part:
                super().write(part)
            if k == "crash":
                d.dead = True
                raise SimCrash
            d.full = k == "nospace"
            raise OSError(errno.ENOSPC if k == "nospace" else errno.EIO, "simulated")
        return super().write(b)

    def readinto(self, buf):
        d = self.disk
        f = d.hit("read", ("readerror", "shortread"))
        if f and f["kind"] == "readerror":
            raise OSError(errno.EIO, "simulated")
        n = len(buf)
        if f or (d.fault and d.fault["kind"] == "shortread"):
            n = min(n, 3)
        data = os.read(self.fileno(), n)
        buf[: len(data)] = data
        return len(data)

    def readall(self):
        out = bytearray()
        while True:
            chunk = bytearray(self.disk.buf)
            n = self.readinto(chunk)
            if not n:
                return bytes(out)
            out += chunk[:n]

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        chunk = bytearray(size)
        n = self.readinto(chunk)
        return bytes(chunk[:n])

    def close(self):
        if self.closed:
            return
        d = self.disk
        if self.writable() and not d.dead and self.epoch == d.epoch:
            f = d.hit("close", ("closeerror",))
            if f:
                # what the system had not written yet is lost
                size = os.fstat(self.fileno()).st_size
                os.ftruncate(self.fileno(), int(size * f["frac"]))
                super().close()
                raise OSError(errno.EIO, "simulated")
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = Disk.cur
    if d is None or opener is not None or not d.mine(file):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if d.dead:
        raise SimCrash
    if d.hit("open", ("openerror",)):
        raise OSError(errno.EMFILE, "simulated")
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    raw = Raw(d, os.fspath(file), raw_mode)
    if buffering == 0:
        return raw
    if "+" in raw_mode:
        buf = io.BufferedRandom(raw, d.buf)
    elif raw_mode[0] == "r":
        buf = io.BufferedReader(raw, d.buf)
    else:
        buf = io.BufferedWriter(raw, d.buf)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
    t._CHUNK_SIZE = d.buf
    t.mode = mode
    return t


def _meta(path):
    d = Disk.cur
    if d is None or not d.mine(path):
        return
    if d.dead:
        raise SimCrash
    f = d.hit("meta", ("ioerror", "crash"))
    if f and f["kind"] == "crash":
        d.dead = True
        raise SimCrash
    if f:
        raise OSError(errno.EIO, "simulated")


def sim_replace(src, dst, **kw):
    _meta(dst)
    return _replace(src, dst, **kw)


def sim_rename(src, dst, **kw):
    _meta(dst)
    return _rename(src, dst, **kw)


def sim_unlink(path, **kw):
    _meta(path)
    return _unlink(path, **kw)


def sim_fsync(fd):
    d = Disk.cur
    if d is not None and d.dead:
        raise SimCrash
    return _fsync(fd)
