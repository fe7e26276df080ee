"""Turn plain-data specs into real ConfigSpace objects (public API only)."""

from __future__ import annotations

import copy

from . import boot  # noqa: F401

import ConfigSpace as CS
from ConfigSpace import (
    AndConjunction,
    EqualsCondition,
    ForbiddenAndConjunction,
    ForbiddenEqualsClause,
    ForbiddenEqualsRelation,
    ForbiddenGreaterThanRelation,
    ForbiddenInClause,
    ForbiddenLessThanRelation,
    GreaterThanCondition,
    InCondition,
    LessThanCondition,
    NotEqualsCondition,
    OrConjunction,
)

COND = {"==": EqualsCondition, "!=": NotEqualsCondition, "<": LessThanCondition, ">": GreaterThanCondition, "in": InCondition}
REL = {"rlt": ForbiddenLessThanRelation, "req": ForbiddenEqualsRelation, "rgt": ForbiddenGreaterThanRelation}
FORB = (ForbiddenAndConjunction, ForbiddenEqualsClause, ForbiddenInClause, *REL.values())


def api(h, meta):
    """The same hyperparameter through the short functions."""
    k, n = h["k"], h["name"]
    if k in ("cat", "ord"):
        return CS.Categorical(n, h["vals"], weights=h.get("weights"), ordered=k == "ord", **meta)
    law = {"u": lambda: CS.Uniform(), "n": lambda: CS.Normal(h["mu"], h["sigma"]), "b": lambda: CS.Beta(h["alpha"], h["beta"])}[k[0]]()
    f = CS.Integer if k.endswith("int") else CS.Float
    return f(n, (h["lo"], h["hi"]), distribution=law, log=h["log"], **meta)


def hp(h, implied=False):
    """implied: leave the default to the library."""
    h = copy.deepcopy(h)  # no two objects share a list
    k, n = h["k"], h["name"]
    meta = dict(meta=h["meta"]) if "meta" in h else {}
    if h.get("api") and k != "const":
        if not implied:
            meta["default"] = h["vals"][h["default"]] if "vals" in h else h["default"]
        return api(h, meta)
    if implied and k in ("cat", "ord"):
        w = dict(weights=h.get("weights")) if k == "cat" else {}
        return {"cat": CS.CategoricalHyperparameter, "ord": CS.OrdinalHyperparameter}[k](n, h["vals"], **w, **meta)
    if k == "cat":
        return CS.CategoricalHyperparameter(n, h["vals"], default_value=h["vals"][h["default"]], weights=h.get("weights"), **meta)
    if k == "ord":
        return CS.OrdinalHyperparameter(n, h["vals"], default_value=h["vals"][h["default"]], **meta)
    if k == "const":
        return CS.Constant(n, h["value"], **meta)
    kw = dict(lower=h["lo"], upper=h["hi"], default_value=None if implied else h["default"], log=h["log"], **meta)
    if k == "ufloat":
        return CS.UniformFloatHyperparameter(n, **kw)
    if k == "uint":
        return CS.UniformIntegerHyperparameter(n, **kw)
    if k == "nfloat":
        return CS.NormalFloatHyperparameter(n, mu=h["mu"], sigma=h["sigma"], **kw)
    if k == "nint":
        return CS.NormalIntegerHyperparameter(n, mu=h["mu"], sigma=h["sigma"], **kw)
    if k == "bfloat":
        return CS.BetaFloatHyperparameter(n, alpha=h["alpha"], beta=h["beta"], **kw)
    if k == "bint":
        return CS.BetaIntegerHyperparameter(n, alpha=h["alpha"], beta=h["beta"], **kw)
    raise AssertionError(k)


def own(v):
    return list(v) if isinstance(v, list) else v


def expr(child, e, objs):
    if e[0] == "and":
        return AndConjunction(*[expr(child, x, objs) for x in e[1]])
    if e[0] == "or":
        return OrConjunction(*[expr(child, x, objs) for x in e[1]])
    return COND[e[0]](objs[child], objs[e[1]], own(e[2]))


def cond(c, objs):
    return expr(c["child"], c["e"], objs)


def forb(f, objs):
    if f[0] == "and":
        return ForbiddenAndConjunction(*[forb(x, objs) for x in f[1]])
    if f[0] == "eq":
        return ForbiddenEqualsClause(objs[f[1]], f[2])
    if f[0] == "in":
        return ForbiddenInClause(objs[f[1]], own(f[2]))
    return REL[f[0]](objs[f[1]], objs[f[2]])


def parts(ref):
    objs = {n: hp(h) for n, h in ref.hps.items()}
    return (
        objs,
        [cond({"child": c, "e": e}, objs) for c, e in ref.conds.items()],
        [forb(f, objs) for f in ref.forbs],
    )


def space(ref, seed=None):
    objs, cs, fs = parts(ref)
    s = CS.ConfigurationSpace(name=ref.name, seed=seed)
    s.add(*objs.values(), *cs, *fs)
    return s


VIA = ("args", "list", "gen", "nested", "old")


def add(s, items, via="args"):
    """Add pieces the way a user might."""
    if via == "list":
        return s.add(list(items))
    if via == "gen":
        return s.add(x for x in items)
    if via == "old" and items:
        for cls, one, many in (
            (CS.hyperparameters.Hyperparameter, s.add_hyperparameter, s.add_hyperparameters),
            ((CS.conditions.Condition, CS.conditions.Conjunction), s.add_condition, s.add_conditions),
            (FORB, s.add_forbidden_clause, s.add_forbidden_clauses),
        ):
            if all(isinstance(x, cls) for x in items):
                return one(items[0]) if len(items) == 1 else many(list(items))
    if via == "nested":
        return s.add([items[:1], [list(items[1:])]])
    return s.add(*items)


def objects(ref, s, objs, batch):
    """The real objects of one batch of a build script."""
    out = []
    for kind, what in batch:
        if kind == "h":
            objs[what] = hp(ref.hps[what])
            out.append(objs[what])
    for kind, what in batch:
        if kind == "c":
            out.append(cond({"child": what, "e": ref.conds[what]}, objs))
        elif kind == "f":
            out.append(forb(ref.forbs[what], objs))
    return out


def script(ref, batches, seed=None, via="args"):
    """Build a space batch by batch."""
    s = CS.ConfigurationSpace(name=ref.name, seed=seed)
    objs = {}
    for b in batches:
        add(s, objects(ref, s, objs, b), via)
    return s
