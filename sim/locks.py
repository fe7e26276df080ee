"""Locks the library makes hand over to another simulated thread when taken."""

from __future__ import annotations

import sys
import threading

_Lock, _RLock = threading.Lock, threading.RLock
waiter = None  # set while threads are scheduled


class CoLock:
    def __init__(self, real):
        self._l = real()
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        if waiter is None or not blocking or timeout >= 0:
            ok = self._l.acquire(blocking, timeout)
        else:
            while not self._l.acquire(False):
                waiter(self)
            ok = True
        if ok:
            self._n += 1
        return ok

    __enter__ = acquire

    def release(self):
        self._l.release()
        self._n -= 1

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._n > 0


def _maker(real):
    def make(*a, **kw):
        name = sys._getframe(1).f_globals.get("__name__", "")
        if name.split(".")[0] == "ConfigSpace" or name == "dataclasses":
            return CoLock(real)
        return real(*a, **kw)

    return make


def install():
    """Before ConfigSpace is imported."""
    threading.Lock, threading.RLock = _maker(_Lock), _maker(_RLock)
