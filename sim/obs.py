"""What a user can see of a space or configuration, as plain data."""

from __future__ import annotations

import json

import numpy as np


def norm(v):
    """Plain Python value; numpy scalars by value."""
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return [norm(x) for x in v.tolist()]
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def values(cfg):
    return {str(k): norm(cfg[k]) for k in cfg}


def key(cfg):
    """Exact identity of a configuration's values."""
    return repr(sorted((k, repr(v)) for k, v in values(cfg).items()))


def vec(cfg_or_arr):
    a = cfg_or_arr if isinstance(cfg_or_arr, np.ndarray) else cfg_or_arr.get_array()
    return [None if x != x else float(x).hex() for x in np.asarray(a, dtype=float).tolist()]


def canon(o):
    return json.dumps(o, sort_keys=True, default=lambda x: repr(norm(x)))


def serial(space):
    d = space.to_serialized_dict()
    return {
        "name": d["name"],
        "hyperparameters": [canon(h) for h in d["hyperparameters"]],
        "conditions": sorted(canon(h) for h in d["conditions"]),
        "forbiddens": sorted(canon(h) for h in d["forbiddens"]),
    }


def hp_names(xs):
    return sorted(h.name for h in xs)


def structure(space):
    """Everything about the definition, no sampling."""
    names = list(space)
    return {
        "len": len(space),
        "names": names,
        "hps": [repr(space[n]) for n in names],
        "index": [space.index_of[n] for n in names],
        "at": list(space.at),
        "conditions": sorted(str(c) for c in space.conditions),
        "forbiddens": sorted(str(c) for c in space.forbidden_clauses),
        "uncond": sorted(space.unconditional_hyperparameters),
        "cond": sorted(space.conditional_hyperparameters),
        "parents": {n: hp_names(space.parents_of[n]) for n in names},
        "children": {n: hp_names(space.children_of[n]) for n in names},
        "pconds": {n: sorted(str(c) for c in space.parent_conditions_of[n]) for n in names},
        "cconds": {n: sorted(str(c) for c in space.child_conditions_of[n]) for n in names},
        "default": values(space.get_default_configuration()) if names else {},
        "serial": serial(space),
        "name": space.name,
        "size": repr(space.estimate_size()),
    }


def diff(a, b):
    """First differing field, for reports."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k) != b.get(k):
                return f"{k}: {diff(a.get(k), b.get(k))}"
    return f"{a!r} != {b!r}"[:800]


def samples(space, n):
    """Samples as exact keys, drawn from the space's own stream."""
    if n == 0:
        return []
    if n == 1:
        return [key(space.sample_configuration())]
    return [key(c) for c in space.sample_configuration(n)]


def near(a, b):
    """Equal up to the rounding a value may suffer in its vector."""
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    except Exception:
        return a == b


def same_values(got, want, ref=None):
    """Same keys, equal values (floats up to rounding)."""
    if set(got) != set(want):
        return False
    for k in got:
        a, b = got[k], want[k]
        if ref is not None and ref.hps[k]["k"] in ("ufloat", "nfloat", "bfloat"):
            if not near(a, b):
                return False
        elif not (a == b):
            return False
    return True
