"""A RandomState whose draws the simulator can distort.

Everything it returns is something the plain generator could have returned:
ends of the interval, values seen before, long runs of one value.
"""

from __future__ import annotations

import numpy as np


Real = np.random.RandomState


class SimRandom(Real):
    """spec: {"seed", "p": share of extreme draws, "rep": share of repeated
    draws, "burst": calls that return only the lowest outcome}"""

    def __init__(self, spec, ctx=None):
        super().__init__(spec["seed"])
        self._d = Real(spec["seed"] ^ 0x5EED)
        self._p = spec.get("p", 0.0)
        self._rep = spec.get("rep", 0.0)
        self._burst = spec.get("burst", 0)
        self._ctx = ctx
        self.calls = 0
        self.drawn = 0

    def _hit(self, kind, n):
        if self._ctx is not None and n:
            self._ctx.fired[kind] += int(n)

    def _twist(self, x, lo, hi):
        """x: what the generator drew; lo, hi: its extreme outcomes."""
        self.calls += 1
        scalar = np.ndim(x) == 0
        a = np.array(x, copy=True).reshape(-1)
        self.drawn += a.size
        if self._burst > 0 and a.size:
            self._burst -= 1
            a[:] = lo
            self._hit("draw-burst", 1)
        elif a.size:
            if self._p:
                m = self._d.random_sample(a.size) < self._p
                n = int(m.sum())
                if n:
                    up = self._d.random_sample(n) < 0.5
                    a[m] = np.where(up, hi, lo)
                    self._hit("draw-extreme", n)
            if self._rep and a.size > 1:
                m = self._d.random_sample(a.size) < self._rep
                m[0] = False
                if m.any():
                    idx = np.arange(a.size)
                    src = (idx * self._d.random_sample(a.size)).astype(int)
                    a[m] = a[src[m]]
                    self._hit("draw-repeat", int(m.sum()))
        if scalar:
            return a.dtype.type(a[0]) if not isinstance(x, (int, float)) else type(x)(a[0])
        return a.reshape(np.shape(x))

    # -------------------------------------------------------------- draws
    def random_sample(self, size=None):
        return self._twist(super().random_sample(size), 0.0, np.nextafter(1.0, 0.0))

    def random(self, size=None):
        return self.random_sample(size)

    def rand(self, *shape):
        return self.random_sample(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        x = super().uniform(low, high, size)
        if np.ndim(low) or np.ndim(high):
            return x
        return self._twist(x, float(low), float(np.nextafter(high, low)))

    def randint(self, low, high=None, size=None, dtype=int):
        x = super().randint(low, high, size, dtype)
        if np.ndim(low) or (high is not None and np.ndim(high)):
            return x
        lo, hi = (0, low) if high is None else (low, high)
        return self._twist(x, lo, hi - 1)

    def choice(self, a, size=None, replace=True, p=None):
        x = super().choice(a, size, replace, p)
        if not replace:
            return x
        pop = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if pop.ndim != 1:
            return x
        if p is not None:
            pop = pop[np.asarray(p) > 0]
        return self._twist(x, pop[0], pop[-1])

    def normal(self, loc=0.0, scale=1.0, size=None):
        x = super().normal(loc, scale, size)
        if np.ndim(loc) or np.ndim(scale):
            return x
        return self._twist(x, loc - 5.5 * scale, loc + 5.5 * scale)

    def beta(self, a, b, size=None):
        x = super().beta(a, b, size)
        return self._twist(x, 1e-12, 1 - 1e-12)


def make(spec, ctx=None):
    """Plain generator unless the spec distorts."""
    if not (spec.get("p") or spec.get("rep") or spec.get("burst")):
        return Real(spec["seed"])
    return SimRandom(spec, ctx)


def gen(r, plain=0.4):
    s = {"seed": r.randrange(2**31)}
    if r.random() >= plain:
        s["p"] = r.choice([0.0, 0.05, 0.3, 0.9])
        s["rep"] = r.choice([0.0, 0.2, 0.8])
    return s
