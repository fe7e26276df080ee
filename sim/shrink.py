"""Minimise a failing plan while it keeps failing in the same way."""

from __future__ import annotations

import copy
import time

from . import model


def spec_cuts(spec):
    """Smaller definitions: without a clause, condition, hyperparameter, part."""
    for i in range(len(spec["forbs"])):
        s = copy.deepcopy(spec)
        del s["forbs"][i]
        yield s
    for i in range(len(spec["conds"])):
        s = copy.deepcopy(spec)
        del s["conds"][i]
        yield s
    for i, h in enumerate(spec["hps"]):
        s = copy.deepcopy(spec)
        n = h["name"]
        del s["hps"][i]
        s["conds"] = [c for c in s["conds"] if c["child"] != n and n not in model.expr_parents(c["e"])]
        s["forbs"] = [f for f in s["forbs"] if n not in model.forb_hps(f)]
        yield s
    for i, c in enumerate(spec["conds"]):
        if c["e"][0] in ("and", "or"):
            for part in c["e"][1]:
                s = copy.deepcopy(spec)
                s["conds"][i]["e"] = copy.deepcopy(part)
                yield s
    for i, f in enumerate(spec["forbs"]):
        if f[0] == "and":
            for part in f[1]:
                s = copy.deepcopy(spec)
                s["forbs"][i] = copy.deepcopy(part)
                yield s


def _lists(plan, path=()):
    """Paths of all shrinkable lists ("ops*", "faults*", "specs", "build")."""
    for k, v in plan.items():
        if isinstance(v, list) and v and (
            k.startswith(("ops", "faults", "items", "programs"))
        ):
            yield path + (k,)
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    yield from _lists(x, path + (k, i))
                elif isinstance(x, list) and k.startswith("programs"):
                    yield path + (k, i)


def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _with(plan, path, value):
    plan = copy.deepcopy(plan)
    _get(plan, path[:-1])[path[-1]] = value
    return plan


def _specs(plan, path=()):
    if isinstance(plan, dict):
        if "hps" in plan and "conds" in plan and "forbs" in plan:
            yield path
            return
        for k, v in plan.items():
            yield from _specs(v, path + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            yield from _specs(v, path + (i,))


def candidates(plan):
    for path in list(_lists(plan)):
        try:
            xs = _get(plan, path)
        except (KeyError, IndexError):
            continue
        n = len(xs)
        step = n
        while step >= 1:
            for i in range(0, n, step):
                if step < n or n == 1 or path[-1].__class__ is str and path[-1].startswith("faults"):
                    yield _with(plan, path, xs[:i] + xs[i + step :])
            step //= 2
    for path in list(_specs(plan)):
        if not path:
            continue
        for s in spec_cuts(_get(plan, path)):
            yield _with(plan, path, s)
    # a build script that is one single call
    for path in list(_builds(plan)):
        yield _with(plan, path, None)
    # less noise
    for path in list(_faulty(plan)):
        yield _with(plan, path, None)
    for path, v in list(_numbers(plan)):
        for w in {1, v // 2, v - 1}:
            if 0 < w < v:
                yield _with(plan, path, w)


def _builds(plan, path=()):
    if isinstance(plan, dict):
        for k, v in plan.items():
            if k == "build" and v:
                yield path + (k,)
            else:
                yield from _builds(v, path + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            yield from _builds(v, path + (i,))


def _faulty(plan, path=()):
    if isinstance(plan, dict):
        for k, v in plan.items():
            if k == "fault" and v:
                yield path + (k,)
            else:
                yield from _faulty(v, path + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            yield from _faulty(v, path + (i,))


def _numbers(plan, path=()):
    if isinstance(plan, dict):
        if "hps" in plan:
            return
        for k, v in plan.items():
            if k in ("n", "steps", "burst") and isinstance(v, int) and v > 1:
                yield path + (k,), v
            else:
                yield from _numbers(v, path + (k,))
    elif isinstance(plan, list):
        for i, v in enumerate(plan):
            yield from _numbers(v, path + (i,))


def minimise(plan, kind, evaluate, max_evals=400, max_s=45):
    """evaluate(plan) -> kind of failure or None."""
    t0 = time.monotonic()
    evals = 0
    progress = True
    while progress and evals < max_evals and time.monotonic() - t0 < max_s:
        progress = False
        for cand in candidates(plan):
            if evals >= max_evals or time.monotonic() - t0 > max_s:
                break
            evals += 1
            if evaluate(cand) == kind:
                plan = cand
                progress = True
                break
    return plan, evals
