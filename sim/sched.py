"""Deterministic thread scheduling.

Threads are real, but only one runs at any time.  A thread can lose the
processor at every source line, call and function entry inside ConfigSpace;
the plan says after how many such points, and to whom, and may name "hot"
lines at which a switch happens at once.  When the list of switches is used
up, the threads run to their end one after another.

Hot lines are drawn from those a program was seen to run, preferring lines
that touch state several threads can reach.  This only steers the search.
"""

from __future__ import annotations

import _thread
import array
import collections
import dis
import hashlib
import sys
import threading
import types

from . import boot, core, locks

import numpy as np

mon = sys.monitoring


class Deadlock(Exception):
    pass


class Stop(BaseException):
    """Ends a thread of an abandoned run."""


class Sched:
    def __init__(self, fns, switches, hot=()):
        self.fns = fns
        self.switches = switches
        self.hot = set(hot)
        self.hits = 0
        self.pos = 0
        self.left = 0
        self.me = 0
        self.alive = set(range(len(fns)))
        self.blocked = {}
        self.gates = [_thread.allocate_lock() for _ in fns]
        self.done = _thread.allocate_lock()
        self.stopped = False
        self.deadlock = False
        self.log = hashlib.blake2b(digest_size=8)
        self.points = 0
        self.made = 0
        self.errors = []

    # ---------------------------------------------------------------- the plan
    def next_switch(self):
        """Arm the next switch: points until then, and the thread to run."""
        if self.pos < len(self.switches):
            n, self.to = self.switches[self.pos]
            self.pos += 1
            self.left = max(1, n)
        else:
            self.left, self.to = 1 << 60, None

    def ready(self):
        return sorted(t for t in self.alive if t not in self.blocked or not self.blocked[t].locked())

    def pick(self, want):
        ok = self.ready()
        if not ok:
            return None
        if want is None:
            return self.me if self.me in ok else ok[0]
        return ok[want % len(ok)]

    # ---------------------------------------------------------------- switching
    def point(self, code, off):
        self.points += 1
        self.left -= 1
        if self.left > 0:
            return
        if self.stopped:
            raise Stop
        to = self.pick(self.to)
        self.next_switch()
        if to is None or to == self.me:
            return
        self.made += 1
        self.log.update(f"{self.me}>{to}:{code.co_qualname}:{off}\n".encode())
        self.transfer(to)

    def line(self, code, line):
        if (code.co_filename, line) in self.hot and self.pos < len(self.switches):
            self.hits += 1
            self.left = 1
            ok = [t for t in self.ready() if t != self.me]
            if ok:
                self.points += 1
                to = ok[self.switches[self.pos][1] % len(ok)]
                self.next_switch()
                self.made += 1
                self.log.update(f"{self.me}>{to}:{code.co_qualname}:{line}\n".encode())
                return self.transfer(to)
        self.point(code, line)

    def transfer(self, to):
        me = self.me
        self.me = to
        self.gates[to].release()
        self.gates[me].acquire()
        if self.stopped:
            raise Stop

    def wait_for(self, lock):
        """The running thread needs a lock another one holds."""
        self.blocked[self.me] = lock
        to = self.pick(None if self.pos >= len(self.switches) else self.switches[self.pos][1])
        if to is None:
            self.deadlock = True
            self.stop()
            raise Stop
        me = self.me
        if to != me:
            self.log.update(f"{me}>{to}:lock\n".encode())
            self.transfer(to)
        self.blocked.pop(me, None)

    def ended(self):
        self.alive.discard(self.me)
        to = self.pick(self.to)
        if to is None:
            if self.alive:
                self.deadlock = True
                self.stop()
            self.done.release()
            return
        self.log.update(f"{self.me}.{to}\n".encode())
        self.me = to
        self.gates[to].release()

    def stop(self):
        self.stopped = True
        self.left = 0
        for t in self.alive:
            if t != self.me:
                try:
                    self.gates[t].release()
                except RuntimeError:
                    pass

    def body(self, k):
        self.gates[k].acquire()
        if self.stopped:
            return
        try:
            self.fns[k]()
        except Stop:
            if self.deadlock:
                return self.finish_stopped()
            return
        except BaseException as e:  # programs catch what the library raises
            self.errors.append((k, e))
        if self.stopped:
            return self.finish_stopped()
        self.ended()

    def finish_stopped(self):
        try:
            self.done.release()
        except RuntimeError:
            pass

    # ---------------------------------------------------------------- a run
    def run(self, first=0, wall=120):
        for g in self.gates:
            g.acquire()
        self.done.acquire()
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.fns))]
        for t in ts:
            t.start()
        self.me = first % len(self.fns)
        self.next_switch()
        core.M.point, core.M.line = self.point, self.line
        locks.waiter = self.wait_for
        try:
            self.gates[self.me].release()
            ok = self.done.acquire(timeout=wall)
        except BaseException:
            self.stop()
            raise
        finally:
            core.M.point = core.M.line = None
            locks.waiter = None
        if self.deadlock:
            raise Deadlock
        if not ok:
            self.stop()
            raise RuntimeError("threads did not finish")
        for t in ts:
            t.join(5)
        for k, e in self.errors:
            raise e
        return self.log.hexdigest()


def _line(code, line):
    if not code.co_filename.startswith(boot.PKG):
        return mon.DISABLE
    p = core.M.line
    if p is not None:
        p(code, line)


def lines_on():
    """Source lines become switching points, too."""
    core.monitor_on()
    if mon.get_events(core.TOOL) & mon.events.LINE:
        return
    mon.register_callback(core.TOOL, mon.events.LINE, _line)
    mon.set_events(core.TOOL, mon.get_events(core.TOOL) | mon.events.LINE)


def gen_switches(r, threads, hot=False):
    """Where to switch: a few deep ones, bursts, or many all over."""
    z = r.random()
    t = lambda: r.randrange(threads)  # noqa: E731
    if hot and r.random() < 0.7:
        # long stretches, so that the others come to the same lines
        m = r.choice([2, 3, 5])
        return [[int(10 ** r.uniform(1, m)), t()] for _ in range(r.choice([10, 60, 200]))]
    if z < 0.3:
        # a few switches anywhere
        return [[int(10 ** r.uniform(0, 5.2)), t()] for _ in range(r.randint(1, 5))]
    if z < 0.55:
        # some way in, then very fine
        out = [[int(10 ** r.uniform(0, 5)), t()]]
        m = r.choice([1, 2, 5])
        return out + [[r.randint(1, m), t()] for _ in range(r.choice([30, 150]))]
    m = r.choice([3, 10, 40, 150])
    return [[1 + int(r.expovariate(1 / m)), t()] for _ in range(r.choice([30, 150, 400]))]


# -------------------------------------------------------------------- hot lines
WRITES = {"STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "STORE_SLICE", "DELETE_ATTR", "DELETE_SUBSCR", "DELETE_GLOBAL"}
MUTATORS = {"append", "update", "pop", "extend", "add", "setdefault", "clear", "insert", "remove", "sort", "fill", "popitem", "appendleft", "popleft"}
PLAIN = (int, float, str, bytes, bool, type(None), tuple, frozenset, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)
_names = None
_boxes = set()  # those that hold a container
_ops = {}
BOXES = (list, dict, set, bytearray, array.array, collections.deque, np.ndarray)


def shared_names():
    """Names of module and class attributes that hold something changeable."""
    global _names
    if _names is None:
        _names = set()
        for name, mod in sorted(sys.modules.items()):
            if name.split(".")[0] != "ConfigSpace" or mod is None:
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith("__"):
                    continue
                if isinstance(v, type) and str(v.__module__).startswith("ConfigSpace"):
                    for a, x in list(vars(v).items()):
                        if not a.startswith("__") and not a.startswith("_abc") and not callable(x) and not isinstance(x, (*PLAIN, property, classmethod, staticmethod)) and not hasattr(x, "__get__"):
                            _names.add(a)
                            if isinstance(x, BOXES):
                                _boxes.add(a)
                elif not callable(v) and not isinstance(v, PLAIN) and not str(type(v).__module__).startswith(("typing", "__future__")):
                    _names.add(k)
                    if isinstance(v, BOXES) and "CODERS" not in k:
                        _boxes.add(k)
                elif hasattr(v, "cache_info"):
                    _names.add(k)
                if isinstance(v, types.FunctionType) and any(not isinstance(d, PLAIN) for d in (v.__defaults__ or ())):
                    _names.update(v.__code__.co_varnames[: v.__code__.co_argcount])
    return _names


def line_kinds(code):
    """line -> subset of {"shared", "write", "attr", "box"}"""
    got = _ops.get(code)
    if got is None:
        got = _ops[code] = {}
        names = shared_names()
        line, prev = None, None
        for ins in dis.get_instructions(code):
            if ins.positions and ins.positions.lineno:
                line = ins.positions.lineno
            k = got.setdefault(line, set())
            if ins.opname in WRITES or ins.argval in MUTATORS and ins.opname == "LOAD_ATTR":
                k.add("write")
            if ins.opname == "STORE_ATTR" and code.co_name not in ("__init__", "__post_init__", "__setstate__"):
                # of an object that exists already, and may be known to others
                k.add("attr")
            if isinstance(ins.argval, str) and ins.argval in _boxes and ins.opname.startswith("LOAD"):
                k.add("box")
            if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL") or isinstance(ins.argval, str) and ins.argval in names and ins.opname.startswith(("LOAD", "STORE")):
                k.add("shared")
            if ins.opname == "STORE_ATTR" and prev is not None and prev.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                k.add("shared")
            if ins.opname == "STORE_ATTR" and prev is not None and prev.argval == "cls":
                k.add("shared")
            prev = ins
    return got


class Watch:
    """Records which lines a program runs, in order of first appearance."""

    def __init__(self):
        self.all, self.shared, self.write, self.race, self.attr = {}, {}, {}, {}, {}
        self.last = None
        self.open = (None, 0)

    def line(self, code, line):
        at = (code.co_filename, line)
        if at not in self.all:
            self.all[at] = True
        k = line_kinds(code).get(line, ())
        for kind, pool in (("shared", self.shared), ("write", self.write), ("attr", self.attr)):
            if kind in k:
                pool[at] = True
            # what runs right after such a line lies in the window it opens
            if self.last is not None and self.last[0] is code and kind in self.last[1]:
                pool[at] = True
        self.last = (code, k)
        if "shared" in k and ("write" in k or "box" in k):
            self.open = (code, 8)
        if self.open[0] is code and self.open[1] > 0:
            self.race[at] = True
            self.open = (code, self.open[1] - 1)

    def __enter__(self):
        core.M.line = self.line
        return self

    def __exit__(self, *a):
        core.M.line = None

    def choose(self, picks):
        """picks: [[pool, fraction], ...] -> lines"""
        out = []
        for pool, f in picks:
            xs = list(getattr(self, pool)) or list(self.shared) or list(self.all)
            if xs:
                out.append(xs[int(f * len(xs))])
        return out


def gen_hot(r, weights, none=0.4):
    """Which lines to make hot (pool and position in it)."""
    if r.random() < none:
        return []
    return [[r.choices(["race", "shared", "write", "all", "attr"], weights)[0], r.random()] for _ in range(r.choice([1, 1, 2, 4]))]
