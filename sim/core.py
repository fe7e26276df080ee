"""One simulated run: event log, fault points, step budget, verdicts."""

from __future__ import annotations

import hashlib
import sys
from collections import Counter

from . import boot

mon = sys.monitoring
TOOL = 3
PREFIX = boot.PKG


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:2000]


class BadPlan(Exception):
    """The plan makes no sense (only after shrinking); the run says nothing."""


class StepBudget(BaseException):
    """Raised inside the library once an operation ran for far too long."""


class SimInterrupt(KeyboardInterrupt):
    pass


class SimMemoryError(MemoryError):
    pass


FAULTS = {"interrupt": SimInterrupt, "alloc": SimMemoryError}


class Mon:
    """Global monitoring state: simulated time and fault points.

    Simulated time counts control-flow events (function entries and jumps)
    inside ConfigSpace.  Fault points are function entries and calls there.
    """

    on = False
    steps = 0
    limit = 1 << 62
    points = 0
    fire_at = 0
    exc = None
    fired_where = None
    point = None  # called at every point where a thread may lose the processor
    line = None  # called at every source line


M = Mon


def _py_start(code, off):
    if not code.co_filename.startswith(PREFIX):
        return mon.DISABLE
    M.steps += 1
    if M.steps > M.limit:
        raise StepBudget
    if M.fire_at:
        M.points += 1
        if M.points == M.fire_at:
            _fire(code, off)
    if M.point is not None:
        M.point(code, off)


def _jump(code, off, dest):
    if not code.co_filename.startswith(PREFIX):
        return mon.DISABLE
    M.steps += 1
    if M.steps > M.limit:
        raise StepBudget


def _call(code, off, fn, arg0):
    if not code.co_filename.startswith(PREFIX):
        return mon.DISABLE
    if M.fire_at:
        M.points += 1
        if M.points == M.fire_at:
            _fire(code, off)
    if M.point is not None:
        M.point(code, off)


def _fire(code, off):
    line = next((l for s, e, l in code.co_lines() if s <= off < e), None)
    M.fired_where = f"{code.co_filename[len(PREFIX) + 1:]}:{code.co_qualname}:{line}"
    raise M.exc("injected")


def monitor_on():
    if M.on:
        return
    E = mon.events
    mon.use_tool_id(TOOL, "sim")
    mon.register_callback(TOOL, E.PY_START, _py_start)
    mon.register_callback(TOOL, E.JUMP, _jump)
    mon.register_callback(TOOL, E.CALL, _call)
    mon.set_events(TOOL, E.PY_START | E.JUMP | E.CALL)
    M.on = True


class Res:
    """Outcome of one library call."""

    __slots__ = ("ok", "value", "exc", "fired")

    def __init__(self, ok, value=None, exc=None, fired=None):
        self.ok, self.value, self.exc, self.fired = ok, value, exc, fired

    @property
    def err(self):
        return None if self.ok else type(self.exc).__name__


OP_BUDGET = 3_000_000


class Ctx:
    def __init__(self):
        self.h = hashlib.blake2b(digest_size=8)
        self.trace = []  # kept short, for the replay file
        self.fired = Counter()
        self.planned = Counter()
        self.probes = Counter()
        self.ops = 0
        self.steps = 0
        self.nontrivial = False
        self.skipped = False
        self.schedule = None

    # -------------------------------------------------------------- event log
    def ev(self, *parts):
        s = "|".join(str(p) for p in parts)
        self.h.update(s.encode("utf8", "replace"))
        self.h.update(b"\n")
        if len(self.trace) < 400:
            self.trace.append(s[:300])

    def digest(self):
        return self.h.hexdigest()

    def probe(self, name, n=1):
        self.probes[name] += n

    def fail(self, kind, detail=""):
        self.ev("VIOLATION", kind)
        raise Violation(kind, detail)

    # -------------------------------------------------------------- library calls
    def lib(self, fn, *a, fault=None, budget=OP_BUDGET, **kw):
        """Call the library; every exception it raises is an outcome.

        fault: None or {"kind": name, "at": k} — raise at the k-th fault point.
        """
        self.ops += 1
        M.limit = M.steps + budget
        M.points = 0
        M.fired_where = None
        if fault:
            self.planned[fault["kind"]] += 1
            M.exc = FAULTS[fault["kind"]]
            M.fire_at = fault["at"]
        s0 = M.steps
        try:
            v = fn(*a, **kw)
            r = Res(True, v)
        except Violation:
            raise
        except StepBudget as e:
            r = Res(False, None, e)
        except (SimInterrupt, SimMemoryError) as e:
            r = Res(False, None, e)
        except BadPlan:
            raise
        except HarnessTimeout:
            raise
        except Exception as e:
            r = Res(False, None, e)
        finally:
            M.fire_at = 0
            M.limit = 1 << 62
            self.steps += M.steps - s0
        r.fired = M.fired_where
        if fault and r.fired:
            self.fired[fault["kind"]] += 1
        if isinstance(r.exc, StepBudget):
            self.fail("hang", f"no answer after {budget} control-flow events")
        return r

    def must(self, what, fn, *a, **kw):
        """A call that the property promises to succeed."""
        r = self.lib(fn, *a, **kw)
        if not r.ok:
            self.fail(f"exception:{what}:{r.err}", f"{what}: {r.exc!r}")
        return r.value

    def count_points(self, fn, *a, **kw):
        """How many fault points one call passes."""
        M.exc = None
        M.fire_at = 1 << 60
        M.points = 0
        M.limit = M.steps + OP_BUDGET
        try:
            fn(*a, **kw)
        except StepBudget as e:
            self.fail("hang", "no answer")
        except HarnessTimeout:
            raise
        except Exception:
            pass
        finally:
            M.fire_at = 0
            M.limit = 1 << 62
        return M.points


class HarnessTimeout(BaseException):
    pass
