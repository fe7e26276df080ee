"""C03: the same seed gives the same results, everywhere."""

from __future__ import annotations

import copy
import pickle

from ..session import Session, gen_op
from .c05 import fault
from .common import *  # noqa: F403

RUNS = {"quick": 2000, "thorough": 60000}
REPEAT_IS_PROPERTY = True
REPEAT = {"quick": (120, (3, 77)), "thorough": (1500, (3, 77, 1234, 99991))}
RULE = (
    "one history of samples, reseeds, neighbours and draws on two equal spaces, the "
    "second with queries (some broken off by an injected KeyboardInterrupt or MemoryError), "
    "draws broken off before a reseed, spaces made from this one, other spaces and global random state disturbed in between; "
    "a sample of the histories again in interpreters with other hash seeds; "
    "non-trivial: at least one sample or neighbour was compared"
)
ASSUMPTIONS = ["numpy and scipy are themselves deterministic for a given seed"]

CORE = ("sample", "sample", "sample", "seed", "default", "nbr", "nbr", "rnd", "hp_sample", "hp_nbr")
NOISE = (
    "default", "cfg", "vec", "nbr", "rnd", "check", "active", "hp_sample", "hp_nbr", "pdf",
    "repr", "serial", "reload", "eq", "hash", "struct", "priors", "values", "hp_misc",
    "copy", "cond_eval",
)
KIN = ("priors", "deep", "pickle", "dict", "nest")


def gen(r, tier, i):
    ref = gen_ref(r)
    plan = {
        "spec": ref.spec(), "build": G.gen_build(r, ref) if r.random() < 0.5 else None,
        "via": r.choice(build.VIA), "seed": r.randrange(2**31), "ops": [], "ops_noise": [],
        "alt": G.gen_build(r, ref) if r.random() < 0.4 else None,
        "other": gen_ref(r, prefix=r.choice(["", "z"])).spec(),
    }
    for k in range(r.randint(2, 9)):
        plan["ops"].append(gen_op(r, ref, CORE))
    for k in range(r.randint(0, 10)):
        at = r.randrange(len(plan["ops"]))
        z = r.random()
        if z < 0.2 and plan["ops"][at]["op"] == "nbr":
            plan["ops_noise"].append({"at": at, "do": "weave", "seeds": [r.randrange(2**31) for _ in range(r.choice([1, 2]))], "v": r.choice([None, 5])})
        elif z < 0.6:
            plan["ops_noise"].append({"at": at, "do": "query", "op": gen_op(r, ref, NOISE)})
            if r.random() < 0.3:
                plan["ops_noise"][-1]["fault"] = fault(r)
        elif z < 0.7:
            plan["ops_noise"].append({"at": at, "do": "kin", "how": r.choice(KIN), "n": r.choice([1, 2, 5]), "v": r.choice([None, r.randrange(2**31)])})
        elif z < 0.8:
            plan["ops_noise"].append({"at": at, "do": "global", "v": r.randrange(2**31)})
        else:
            plan["ops_noise"].append({"at": at, "do": "other", "n": r.randint(1, 4)})
        if plan["ops"][at]["op"] == "seed" and r.random() < 0.5:
            # A draw that is broken off just before the space is seeded again.
            plan["ops_noise"].append({"at": at, "do": "draw", "n": r.choice([1, 3, 20]), "fault": fault(r)})
    return plan


def kin(s, x):
    """A space made from another one is put to use."""
    how = x["how"]
    if how == "priors":
        o = s.remove_hyperparameter_priors()
    elif how == "deep":
        o = copy.deepcopy(s)
    elif how == "pickle":
        o = pickle.loads(pickle.dumps(s))
    elif how == "dict":
        o = CS.ConfigurationSpace.from_serialized_dict(s.to_serialized_dict())
    else:
        o = CS.ConfigurationSpace(seed=1)
        o.add_configuration_space("kin", s)
    if x["v"] is not None:
        o.seed(x["v"])
    o.sample_configuration(x["n"])
    list(CS.util.get_one_exchange_neighbourhood(o.get_default_configuration(), seed=3, num_neighbors=1))


def weave(s, x):
    """Goes on with other neighbourhoods whenever it is called."""
    c = s.get_default_configuration()
    gs = [CS.util.get_one_exchange_neighbourhood(c, seed=n, num_neighbors=2) for n in x["seeds"]]

    def step():
        for g in gs:
            next(g, None)
        if x["v"] is not None:
            np.random.seed(x["v"])

    return step


def broken(ctx, q, op, f):
    """A query that is broken off."""
    n = ctx.count_points(q.do, op)
    r = ctx.lib(q.do, op, fault={"kind": f["kind"], "at": 1 + int(f["frac"] * n)})
    ctx.ev("broken", op["op"], r.err, r.fired)


def run(plan, ctx):
    ref, s = make_space(plan, seed=plan["seed"], ctx=ctx)
    a = Session(s)
    first = []
    for op in plan["ops"]:
        first.append(a.outcome_in(ctx, op))
    other = None
    sub = {"spec": plan["spec"], "build": plan.get("alt") or plan["build"], "via": plan["via"]}
    ref, t = make_space(sub, ctx=ctx)
    t.seed(plan["seed"])
    b = Session(t)
    q = Session(t)
    for k, op in enumerate(plan["ops"]):
        b.between = None
        for x in plan["ops_noise"]:
            if x["at"] != k:
                continue
            if x["do"] == "weave":
                b.between = weave(t, x)
            elif x["do"] == "query":
                if ref.hps.keys() >= {x["op"].get("h"), x["op"].get("k")} - {None}:
                    q.outcome_in(ctx, x["op"])
                    if x.get("fault"):
                        broken(ctx, q, x["op"], x["fault"])
            elif x["do"] == "draw":
                if op["op"] == "seed":
                    broken(ctx, q, {"op": "sample", "n": x["n"]}, x["fault"])
            elif x["do"] == "kin":
                ctx.lib(kin, t, x)
            elif x["do"] == "global":
                random.seed(x["v"])
                np.random.seed(x["v"] % 2**31)
            else:
                if other is None:
                    o = RefSpace.of(plan["other"])
                    if not o.hps or o.topo() is None:
                        continue
                    other = build.space(o, seed=5)
                ctx.lib(other.sample_configuration, x["n"])
            ctx.probe("noise-" + x["do"])
        got = b.outcome_in(ctx, op)
        ctx.ev(op["op"], got)
        if got != first[k]:
            ctx.fail("differs:" + op["op"], f"op {k} {op}: {first[k][:400]} then {got[:400]}")
        if op["op"] in ("sample", "nbr"):
            ctx.nontrivial = True
    # seeding again restarts the sequence
    for z in (s, t):
        z.seed(plan["seed"])
    n = 3
    x = [obs.key(c) + str(obs.vec(c)) for c in ctx.must("sample", s.sample_configuration, n)]
    y = [obs.key(c) + str(obs.vec(c)) for c in ctx.must("sample", t.sample_configuration, n)]
    s.seed(plan["seed"])
    z = [obs.key(c) + str(obs.vec(c)) for c in ctx.must("sample", s.sample_configuration, n)]
    ctx.ev("restart", x)
    if not (x == y == z):
        ctx.fail("restart-differs", f"{x} {y} {z}")
