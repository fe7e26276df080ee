"""C04: a space does not depend on the order it was built in."""

from __future__ import annotations

import copy

from ..session import Session, gen_op
from .c05 import fault
from .common import *  # noqa: F403

RUNS = {"quick": 3500, "thorough": 60000}
RULE = (
    "one definition built in two to four random orders and batchings that the model "
    "accepts step by step, some steps first broken off by an injected KeyboardInterrupt or "
    "MemoryError and then repeated, then the same queries on each; also a definition changed in "
    "one place; non-trivial: the space has a condition or clause and two builds differ"
)
ASSUMPTIONS = ["only orders in which every call is accepted are compared"]

OPS = ("sample", "sample", "nbr", "rnd", "default", "cfg", "cfg", "check", "active", "hp_sample",
       "hp_nbr", "vcheck", "ccheck", "values", "set", "cond_eval", "hp_misc")


def mutate(r, ref):
    """A definition that differs in one place; None if there is none."""
    m = RefSpace.of(ref.spec())
    kinds = ["default", "drop-forb", "drop-cond", "value", "bound"]
    r.shuffle(kinds)
    for k in kinds:
        names = sorted(m.hps)
        n = r.choice(names)
        h = dict(m.hps[n])
        if k == "default" and h["k"] in ("cat", "ord") and len(h["vals"]) > 1:
            d = (h["default"] + 1) % len(h["vals"])
            if h.get("weights") and h["weights"][d] == 0:
                continue
            h["default"] = d
            m.hps[n] = h
        elif k == "default" and h["k"] in INTS:
            h["default"] = h["lo"] if h["default"] != h["lo"] else h["hi"]
            m.hps[n] = h
        elif k == "drop-forb" and m.forbs:
            m.forbs.pop(r.randrange(len(m.forbs)))
        elif k == "drop-cond" and m.conds:
            del m.conds[r.choice(sorted(m.conds))]
        elif k == "bound" and h["k"] in INTS:
            h["hi"] += 1
            m.hps[n] = h
        elif k == "value" and m.conds:
            c = r.choice(sorted(m.conds))
            e = m.conds[c]
            if e[0] not in ("==", "!="):
                continue
            p = m.hps[e[1]]
            v = G.pick_value(r, p)
            if v == e[2]:
                continue
            m.conds[c] = [e[0], e[1], v]
        else:
            continue
        m._topo = None
        try:
            if m.default_ok():
                return m.spec()
        except Ambiguous:
            pass
        m = RefSpace.of(ref.spec())
    return None


def gen(r, tier, i):
    ref = gen_ref(r)
    plan = {
        "spec": ref.spec(),
        "builds": [{"build": G.gen_build(r, ref), "via": r.choice(build.VIA), "new": r.choice([None, None, "dict", "list", "first"])} for _ in range(r.randint(2, 4))],
        "seed": r.randrange(2**31),
        "other": mutate(r, ref) if r.random() < 0.4 else None,
        "ops": [gen_op(r, ref, OPS) for _ in range(r.randint(4, 12))],
        "between": r.random() < 0.3,
    }
    if r.random() < 0.3:
        # Attempts that are broken off before the addition is made.
        b = r.choice(plan["builds"])
        b["faults"] = [[r.randrange(len(b["build"])), fault(r)] for _ in range(r.randint(1, 3))]
    return plan


def first(name, hps, how):
    """A space that begins with some hyperparameters."""
    if how == "first":
        s = CS.ConfigurationSpace(hps, seed=1)
        s.name = name
        return s
    return CS.ConfigurationSpace(name, 1, space=hps if how == "list" else {h.name: h for h in hps})


def broken(ctx, ref, s, objs, x, via, f):
    """The addition tried and broken off; the objects of the user if it got through all the same."""
    t = copy.deepcopy(s)
    n = ctx.count_points(build.add, t, build.objects(ref, t, {n: t[n] for n in t}, x), via)
    mine = dict(objs)
    items = build.objects(ref, s, mine, x)
    r = ctx.lib(build.add, s, items, via, fault={"kind": f["kind"], "at": 1 + int(f["frac"] * n)})
    ctx.ev("broken", r.err, r.fired)
    if not r.ok and r.fired is None:
        ctx.fail("exception:add", repr(r.exc))
    return mine if r.ok else None


def run(plan, ctx):
    spaces = []
    for b in plan["builds"]:
        sub = {"spec": plan["spec"], "build": b["build"], "via": b["via"]}
        ref, batches = load_plan(sub)
        if not G.accepted(ref, batches):
            raise BadPlan
        # Queries between the steps must not leave a trace, either.
        s = CS.ConfigurationSpace(name=ref.name, seed=1)
        objs = {}
        if b.get("new") and all(p[0] == "h" for p in batches[0]):
            s = ctx.must("new", first, ref.name, build.objects(ref, s, objs, batches[0]), b["new"])
            batches = batches[1:]
        for k, x in enumerate(batches):
            done = None
            for f in [f for i, f in b.get("faults", ()) if i == k]:
                done = done or broken(ctx, ref, s, objs, x, b["via"], f)
            objs = done or objs
            if done is None:
                ctx.must("add", build.add, s, build.objects(ref, s, objs, x), b["via"])
            if plan.get("between"):
                ctx.must("default", s.get_default_configuration)
                ctx.must("repr", repr, s)
        spaces.append(s)
    if not spaces:
        raise BadPlan
    a = spaces[0]
    sa = obs.structure(a)
    for t in spaces[1:]:
        if not ctx.must("eq", a.__eq__, t) or not t == a or a != t:
            ctx.fail("not-equal", f"{a} vs {t}")
        st = obs.structure(t)
        if sa != st:
            ctx.fail("structure-differs", obs.diff(sa, st))
    ctx.ev(obs.canon(sa))
    outs = []
    for s in spaces:
        s.seed(plan["seed"])
        z = Session(s)
        outs.append([z.outcome_in(ctx, op) for op in plan["ops"]])
    for k, op in enumerate(plan["ops"]):
        ctx.ev(op["op"], outs[0][k])
        for o in outs[1:]:
            if o[k] != outs[0][k]:
                ctx.fail("differs:" + op["op"], f"{op}: {outs[0][k][:500]} vs {o[k][:500]}")
    if len(spaces) > 1 and (ref.conds or ref.forbs):
        ctx.nontrivial = True
    if plan.get("other"):
        m = RefSpace.of(plan["other"])
        if not m.hps or m.topo() is None or not m.default_ok() or m.spec() == ref.spec():
            return
        t = ctx.must("build", build.space, m)
        if t == a or a == t:
            # Equal spaces behave alike; these two need not.
            if obs.structure(t) != sa:
                ctx.fail("equal-but-different", obs.diff(sa, obs.structure(t)))
        ctx.probe("changed-definition")
