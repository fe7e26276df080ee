"""Shared by the property modules."""

from __future__ import annotations

import random

from .. import boot, build, gen as G, obs, rand  # noqa: F401
from ..core import BadPlan, Ctx, Violation  # noqa: F401
from ..model import CONT, INTS, Ambiguous, RefSpace  # noqa: F401

import ConfigSpace as CS  # noqa: E402
import numpy as np  # noqa: E402,F401

__all__ = [
    "Ambiguous", "BadPlan", "CONT", "CS", "Ctx", "G", "INTS", "RefSpace", "Violation",
    "build", "gen_ref", "load_plan", "np", "obs", "rand", "share", "random", "make_space",
    "gen_spec",
]


def gen_ref(r, name=None, prefix="", deep=0.04, sw=None, min_accept=0.08):
    if sw is None and r.random() < deep:
        sw = G.chain_swarm(r)
    return G.gen_space(r, sw, name=name, prefix=prefix, min_accept=min_accept)


def gen_spec(r, **kw):
    """A space together with one way of building it."""
    ref = gen_ref(r, **kw)
    return {"spec": ref.spec(), "build": G.gen_build(r, ref) if r.random() < 0.5 else None, "via": r.choice(build.VIA)}


def load_plan(plan):
    """(model, build script) of a plan or sub-plan; robust against shrinking."""
    ref = RefSpace.of(plan["spec"])
    if not ref.hps or ref.topo() is None:
        raise BadPlan
    batches = plan.get("build")
    if not batches:
        return ref, [G.pieces(ref)]
    have = []
    for b in batches:
        nb = [p for p in b if (p[0] == "h" and p[1] in ref.hps) or (p[0] == "c" and p[1] in ref.conds)
              or (p[0] == "f" and p[1] < len(ref.forbs))]
        if nb:
            have.append(nb)
    flat = [tuple(p) for b in have for p in b]
    if sorted(map(str, flat)) != sorted(str(tuple(p)) for p in G.pieces(ref)):
        raise BadPlan
    try:
        if G.partial(ref, have) is None:
            raise BadPlan
    except Ambiguous:
        raise BadPlan from None
    return ref, have


def make_space(plan, seed=None, ctx=None):
    """(model, real space) of a plan or sub-plan."""
    ref, batches = load_plan(plan)
    try:
        ok = G.accepted(ref, batches)
    except Ambiguous:
        ok = False
    if not ok:
        raise BadPlan
    if ctx is not None:
        # The model accepts every step, so the library must, too.
        return ref, ctx.must("build", build.script, ref, batches, seed=seed, via=plan.get("via", "args"))
    return ref, build.script(ref, batches, seed=seed, via=plan.get("via", "args"))


def share(ref, n=60):
    """Acceptance share by the model, on a fixed private stream."""
    if not ref.forbs:
        return 1.0
    known = ref.__dict__.setdefault("_share", {})
    key = (n, len(ref.hps), len(ref.conds), len(ref.forbs))
    if key not in known:
        known[key] = G.acceptance(ref, random.Random(99), n)
    return known[key]
