"""C15: read-only operations change nothing."""

from __future__ import annotations

import copy
import io
import json
import warnings

from .. import boot
from ..session import READ, Session, gen_op
from .c03 import broken
from .c05 import fault, rng
from .common import *  # noqa: F403

from ConfigSpace import util as U
from ConfigSpace.read_and_write import pcs, pcs_new

RUNS = {"quick": 3000, "thorough": 40000}
RULE = (
    "histories of queries on one space and its configurations, among them calls whose "
    "arguments are checked afterwards and whose results are then spoiled by the caller, and queries "
    "broken off by an injected KeyboardInterrupt or MemoryError; a twin "
    "gets only some of the queries; non-trivial: at least two queries the twin did not get, "
    "before one that both got"
)
ASSUMPTIONS = [
    "drawing from a space advances its random stream, so both sides are seeded again after a draw only one side made",
    "the array a configuration is built from, and the one it hands out, belong to the configuration",
    "fix_types works in place and is not a query",
    "what a user puts in the meta field is handed on as it is and stays the user's",
]

INPUTS = ("values", "vector", "hp-vector", "hp-values", "decode", "decode-text", "eval", "pieces", "grid", "deact")
OUTPUTS = ("dict", "serial", "draws", "nbrs", "clone", "hpcopy", "active", "texts", "lists", "pcs")
KINDS = tuple(k for k in READ if k != "sample")


# ------------------------------------------------------------------ generation
def gen(r, tier, i):
    sw = G.chain_swarm(r) if r.random() < 0.02 else G.swarm(r)
    sw["seq"] = False  # such values are the user's own objects
    sp = gen_spec(r, sw=sw)
    ref = RefSpace.of(sp["spec"])
    few = r.random() < 0.5
    kinds = r.sample(KINDS, 4) if few else KINDS
    ops = []
    for _ in range(r.choice([4, 8, 16])):
        z = r.random()
        if z < 0.3:
            ops.append({"op": "both", "do": gen_op(r, ref, kinds + type(kinds)(["sample", "sample"]))})
        elif z < 0.5:
            ops.append({"op": "extra", "do": gen_op(r, ref, kinds)})
            if r.random() < 0.3:
                ops[-1]["fault"] = fault(r)
        elif z < 0.55:
            ops.append({"op": "xsample", "n": r.choice([1, 2, 7]), "seed": r.randrange(999)})
            if r.random() < 0.4:
                ops[-1]["fault"] = fault(r)
        elif z < 0.75:
            ops.append({"op": "input", "what": r.choice(INPUTS), "h": r.choice(sorted(ref.hps)), "c": r.randrange(99), "seed": r.randrange(999)})
        elif z < 0.92:
            ops.append({"op": "output", "what": r.choice(OUTPUTS), "h": r.choice(sorted(ref.hps)), "c": r.randrange(99), "seed": r.randrange(999)})
        elif z < 0.95:
            ops.append({"op": "open", "c": r.randrange(99), "seed": r.randrange(999), "num": r.choice([1, 3])})
        else:
            ops.append({"op": "advance", "n": r.choice([1, 3])})
    ops.append({"op": "both", "do": gen_op(r, ref, kinds)})
    return {**sp, "seed": r.randrange(2**31), "ops": ops, "items_pool": [G.gen_config_values(r, ref, 20) for _ in range(r.choice([1, 2, 3]))],
            "pool_as": r.choice(["values", "vector", "mixed"])}


# ------------------------------------------------------------------ helpers
def frozen(x):
    """Plain form of caller-owned data, types and order included."""
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, [frozen(v) for v in x.reshape(-1).tolist()])
    if isinstance(x, dict):
        return ("dict", [(repr(k), frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    return (type(x).__name__, repr(x))


def spoil(x, seen=None):
    """Overwrite everything mutable in a structure the library handed out."""
    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        for k in list(x)[::2]:
            del x[k]
        for k in x:
            x[k] = "spoiled"
        x["spoiled"] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x[:] = ["spoiled", *x[:-1]]
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 7 if x.dtype.kind in "biufc" else x[::-1] if x.ndim == 1 else x


class Guard:
    def __init__(self, ctx, what):
        self.ctx, self.what, self.kept = ctx, what, []

    def __call__(self, x):
        self.kept.append((x, frozen(x)))
        return x

    def check(self):
        for x, was in self.kept:
            if frozen(x) != was:
                self.ctx.fail("argument-changed:" + self.what, f"{was} became {frozen(x)}"[:900])


def attempt(fn, *a, **k):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except Exception as e:
        return e


def long_form(v):
    if type(v) is float and 0 < abs(v) < 1e3:
        return v * (1 + 2e-15) if v * (1 + 2e-15) != v else v
    return v


def np_form(v):
    return np.float64(v) if type(v) is float else np.int64(v) if type(v) is int and abs(v) < 2**62 else np.str_(v) if type(v) is str else v


# ------------------------------------------------------------------ operations
def do_input(ctx, z, ref, op):
    s, h, c = z.s, z.s[op["h"]], z.cfg(op)
    g = Guard(ctx, op["what"])
    rs = np.random.RandomState(op["seed"])
    w = op["what"]
    if w == "values":
        d = g({k: obs.norm(v) for k, v in c.items()})
        attempt(CS.Configuration, s, values=d)
        # forms a caller may use: more digits than are kept, numpy scalars, another order
        for f in (long_form, np_form):
            for x in (d, dict(reversed(list(d.items())))):
                f2 = g({k: f(v) for k, v in x.items()})
                k2 = attempt(CS.Configuration, s, values=f2)
                if not isinstance(k2, Exception):
                    attempt(dict, k2)
                    attempt(k2.__setitem__, op["h"], obs.norm(h.default_value))
                attempt(U.deactivate_inactive_hyperparameters, f2, s)
        d2 = dict(d)
        d2[op["h"]] = obs.norm(h.default_value)
        attempt(CS.Configuration, s, values=g(d2))
        attempt(CS.Configuration, s, values=g({"no such": 1, **d}))
    elif w == "vector":
        v = g(np.array(c.get_array()))
        k = attempt(CS.Configuration, s, vector=v)
        if not isinstance(k, Exception):
            attempt(k.check_valid_configuration)
            attempt(dict, k)
            attempt(k.__setitem__, op["h"], obs.norm(h.default_value))
            attempt(U.impute_inactive_values, k)
        attempt(s.check_configuration_vector_representation, g(np.array(c.get_array())))
        v2 = np.array(c.get_array())
        v2[op["c"] % len(v2)] = np.nan
        attempt(s.check_configuration_vector_representation, g(v2))
        attempt(CS.Configuration, s, vector=g(np.array(c.get_array()).reshape(-1, 1)))
        attempt(CS.Configuration, s, vector=g([float(x) for x in c.get_array()]))
    elif w == "hp-vector":
        v = g(np.array(h.sample_vector(size=5, seed=rs)))
        for fn in (h.to_value, h.legal_vector, h.pdf_vector):
            attempt(fn, v)
        attempt(h.legal_vector, g(np.array([0.3, -1.0, 2.0, 1.0])))
        attempt(h.pdf_vector, g(np.array([0.3, -1.0, 2.0, 1.0, 0.0])))
    elif w == "hp-values":
        vals = h.sample_value(size=4, seed=rs)
        for x in (g(np.array(vals)), g([obs.norm(v) for v in vals]), g(tuple(obs.norm(v) for v in vals))):
            for fn in (h.to_vector, h.legal_value, h.pdf_values):
                attempt(fn, x)
        attempt(h.legal_value, g([obs.norm(vals[0]), "no such", 10**9, None]))
    elif w in ("decode", "decode-text"):
        d = s.to_serialized_dict()
        if w == "decode-text":
            d = json.loads(json.dumps(d, default=lambda x: x.item()))
        attempt(CS.ConfigurationSpace.from_serialized_dict, g(d))
        bad = copy.deepcopy(d)
        bad["forbiddens"] = [*bad["forbiddens"], {"type": "no such"}]
        attempt(CS.ConfigurationSpace.from_serialized_dict, g(bad))
    elif w == "eval":
        v, d = g(np.array(c.get_array())), g({k: obs.norm(x) for k, x in c.items()})
        m = g(np.array([c.get_array(), c.get_array()]).T)
        for x in s.conditions:
            attempt(x.satisfied_by_vector, v)
            attempt(x.satisfied_by_value, d)
            attempt(x.satisfied_by_vector_array, m)
        for x in s.forbidden_clauses:
            attempt(x.is_forbidden_vector, v)
            attempt(x.is_forbidden_value, d)
            attempt(x.is_forbidden_vector_array, m)
        attempt(s.get_active_hyperparameters, c)
    elif w == "pieces":
        # what objects are made of stays the caller's
        vals, ws, meta = g(["b", "a", "e", "c", "g", "f", "d"]), g([1.0, 2.0, 3.0, 1.0, 5.0, 1.0, 2.0]), g({"note": [1, 2]})
        t = CS.ConfigurationSpace(seed=1)
        x = CS.CategoricalHyperparameter("x", vals, default_value="b", weights=ws, meta=meta)
        y = CS.OrdinalHyperparameter("y", g([3, 5, 9]), meta=meta)
        t.add(g([x, y]))
        p, q = CS.InCondition(y, x, g(["e", "b", "a", "g", "f"])), CS.ForbiddenInClause(x, g(["d", "c"]))
        t.add(p, q)
        for z in (x, y, p, q, t):
            attempt(str, z), attempt(repr, z), attempt(hash, z), attempt(copy.copy, z)
        attempt(t.sample_configuration, 3)
        attempt(t.to_serialized_dict)
        attempt(t.remove_hyperparameter_priors)
        attempt(CS.ConfigurationSpace, "n", 1, None, space=g({"p": (1, 5), "q": ["u", "v"], "r": 3.0, "s": [1, 2]}))
    elif w == "grid":
        n = g({k: 2 for k in s if ref.hps[k]["k"] in CONT or ref.hps[k]["k"] in INTS})
        if len(ref.hps) <= 5 and all(len(x.get("vals", ())) <= 4 for x in ref.hps.values()):
            attempt(U.generate_grid, s, n)
    elif w == "deact":
        attempt(U.deactivate_inactive_hyperparameters, g({k: obs.norm(x) for k, x in c.items()}), s)
        attempt(U.deactivate_inactive_hyperparameters, g({k: obs.norm(s[k].default_value) for k in s}), s)
        attempt(U.deactivate_inactive_hyperparameters, c, s, g(np.array(c.get_array())))
        attempt(U.change_hp_value, s, np.array(c.get_array()), op["h"], float(h.to_vector(h.default_value)), s.index_of[op["h"]])
    g.check()


def do_output(ctx, z, ref, op):
    s, h, c = z.s, z.s[op["h"]], z.cfg(op)
    rs = np.random.RandomState(op["seed"])
    w = op["what"]
    if w == "dict":
        spoil(dict(c))
        spoil(attempt(c.get_dictionary))
        spoil(attempt(lambda: {k: v for k, v in c.items()}))
    elif w == "serial":
        d = s.to_serialized_dict()
        spoil(d)
        f = io.StringIO()
        s.to_json(f)
    elif w == "draws":
        for n in (1, 4):
            spoil(h.sample_value(size=n, seed=rs))
            spoil(h.sample_vector(size=n, seed=rs))
        spoil(attempt(h.rvs, 3, random_state=rs))
        spoil(attempt(h.rvs, 3, random_state=5))
    elif w == "nbrs":
        v = h.to_vector(h.default_value)
        for n in (1, 3):
            spoil(attempt(h.neighbors_vectorized, v, n, seed=rs))
            spoil(attempt(h.neighbors_values, h.default_value, n, seed=rs))
            spoil(attempt(h.neighbors_vectorized, v, n, std=0.3, seed=rs))
            spoil(attempt(h.get_neighbors, v, rs, n))
        spoil(attempt(h.pdf_vector, np.array([v, v])))
        spoil(attempt(h.pdf_values, [h.default_value]))
        spoil(attempt(h.to_value, np.array([v, v])))
        spoil(attempt(h.to_vector, [h.default_value]))
    elif w == "clone":
        # what is done to a copy stays there
        t = attempt(copy.deepcopy, c)
        attempt(lambda: t.__setitem__(op["h"], obs.norm(h.sample_value(seed=rs))))
        t = attempt(copy.copy, c)
        attempt(lambda: t.__setitem__(op["h"], obs.norm(h.sample_value(seed=rs))))
        t = CS.Configuration(s, values=dict(c))
        attempt(lambda: t.__setitem__(op["h"], obs.norm(h.sample_value(seed=rs))))
        t = attempt(s.remove_hyperparameter_priors)
        attempt(lambda: t.add(CS.Constant("spoiled", 1)))
        attempt(lambda: t.seed(3))
        for n in U.get_one_exchange_neighbourhood(c, seed=op["seed"], num_neighbors=1):
            attempt(n.__setitem__, op["h"], obs.norm(h.sample_value(seed=rs)))
            break
        n = attempt(U.get_random_neighbor, c, op["seed"])
        attempt(lambda: n.__setitem__(op["h"], obs.norm(h.sample_value(seed=rs))))
        n = s.get_default_configuration()
        attempt(n.__setitem__, op["h"], obs.norm(h.sample_value(seed=rs)))
    elif w == "hpcopy":
        t = attempt(h.copy)
        attempt(setattr, t, "name", "spoiled")
        attempt(h.copy, name="other")
        t = copy.copy(h)
        t.name = "spoiled"
        t = attempt(lambda: h.to_uniform())
        attempt(setattr, t, "name", "spoiled")
        for x in (*s.conditions, *s.forbidden_clauses):
            y = attempt(copy.copy, x)
            attempt(str, y), attempt(repr, y), attempt(hash, y), attempt(lambda: x == y)
    elif w == "active":
        attempt(s.get_active_hyperparameters, c)
        attempt(s.estimate_size)
        attempt(len, c)
        attempt(lambda: c == s.get_default_configuration())
        attempt(lambda: {c: 1})
    elif w == "texts":
        for x in (s, c, h, *s.conditions, *s.forbidden_clauses):
            attempt(str, x), attempt(repr, x), attempt(hash, x), attempt(lambda: x == x), attempt(lambda: x != 3)
    elif w == "lists":
        for fn in ("get_hyperparameters", "get_hyperparameters_dict", "get_hyperparameter_names", "get_conditions",
                   "get_forbiddens", "get_all_conditional_hyperparameters", "get_all_unconditional_hyperparameters"):
            attempt(getattr(s, fn))
        for fn in ("get_children_of", "get_parents_of", "get_child_conditions_of", "get_parent_conditions_of",
                   "get_hyperparameter", "get_idx_by_hyperparameter_name"):
            attempt(getattr(s, fn), op["h"])
        attempt(s.get_hyperparameter_by_idx, 0)
        for x in (*s.conditions, *s.forbidden_clauses):
            attempt(lambda: x.get_descendant_literal_conditions())
            attempt(lambda: x.get_descendant_literal_clauses())
            attempt(lambda: x.get_parents())
            attempt(lambda: x.get_children())
        CS.ConfigurationSpace.substitute_hyperparameters_in_conditions(s.conditions, s.remove_hyperparameter_priors()) if s.conditions else None
        CS.ConfigurationSpace.substitute_hyperparameters_in_forbiddens(s.forbidden_clauses, s.remove_hyperparameter_priors()) if s.forbidden_clauses else None
    elif w == "pcs":
        attempt(pcs.write, s)
        attempt(pcs_new.write, s)


# ------------------------------------------------------------------ execution
def world(plan, ref, batches):
    s = build.script(ref, batches, seed=plan["seed"], via=plan["via"])
    pool = []
    for k, v in enumerate(plan["items_pool"]):
        c = CS.Configuration(s, values=v)
        if plan["pool_as"] == "vector" or plan["pool_as"] == "mixed" and k % 2:
            c = CS.Configuration(s, vector=np.array(c.get_array()))
        pool.append(c)
    return Session(s, pool)


def stream(z, op):
    c = z.cfg(op)
    return U.get_one_exchange_neighbourhood(c, seed=op["seed"], num_neighbors=op["num"])


def run(plan, ctx):
    ref, batches = load_plan(plan)
    if not G.accepted(ref, batches) or share(ref, 40) < 0.03:
        raise BadPlan
    try:
        if any(ref.judge(v) for v in plan["items_pool"]):
            raise BadPlan
    except Ambiguous:
        raise BadPlan from None
    a, b = ctx.must("build", world, plan, ref, batches), world(plan, ref, batches)
    extra = 0
    open_ = []
    for op in plan["ops"]:
        k = op["op"]
        do = op.get("do", op)
        if any(do.get(x) not in (None, *ref.hps) for x in ("h", "k")):
            continue
        if k == "both":
            x, y = a.outcome_in(ctx, do), b.outcome_in(ctx, do)
            ctx.ev(do["op"], x)
            if x != y:
                ctx.fail("behaves-differently:" + do["op"], f"{do}: {x[:400]} instead of {y[:400]}")
            ctx.nontrivial |= extra > 1
            continue
        if k == "open":
            g = stream(a, op)
            want = []
            ctx.lib(lambda: [want.append(obs.key(x)) for x in stream(b, op)])
            open_.append((g, want, []))
            continue
        if k == "advance":
            for g, want, got in open_:
                forward(ctx, g, got, op["n"])
            continue
        extra += 1
        ctx.probe(k + ":" + op["what"] if "what" in op else k)
        z = Session(a.s, list(a.pool))
        if k == "extra":
            state = rng(a.s)
            ctx.ev("x", do["op"], z.outcome_in(ctx, do))
            if op.get("fault"):
                broken(ctx, z, do, op["fault"])
            if rng(a.s) != state:
                ctx.fail("random-state-changed", f"by {do}")
        elif k == "xsample":
            if op.get("fault"):
                broken(ctx, z, {"op": "sample", "n": op["n"]}, op["fault"])
            r = ctx.lib(z.do, {"op": "sample", "n": op["n"]})
            a.s.seed(op["seed"])
            b.s.seed(op["seed"])
        else:
            state = rng(a.s)
            fn = do_input if k == "input" else do_output
            r = ctx.lib(fn, ctx, z, ref, op, budget=30_000_000)
            ctx.ev(k, op["what"], r.err)
            if not r.ok and not ours(r.exc):
                raise r.exc
            if rng(a.s) != state:
                ctx.fail("random-state-changed", f"by {op}")
    for g, want, got in open_:
        forward(ctx, g, got, 10**6)
        if got != want:
            ctx.fail("stream-differs", f"{got} instead of {want}"[:900])
    if not extra:
        return
    twins(ctx, a, b)
    for do in ({"op": "sample", "n": 3}, {"op": "cond_eval", "c": 0}, {"op": "nbr", "c": 1, "seed": 7, "num": 2, "take": 9, "int": True}):
        x, y = a.outcome_in(ctx, do), b.outcome_in(ctx, do)
        if x != y:
            ctx.fail("behaves-differently:" + do["op"], f"{do}: {x[:400]} instead of {y[:400]}")


def ours(e):
    """Did the library raise this?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.PKG):
            return True
        tb = tb.tb_next
    return False


def forward(ctx, g, got, n):
    def go():
        for _ in range(n):
            c = next(g, None)
            if c is None:
                break
            got.append(obs.key(c))

    ctx.lib(go)


def twins(ctx, a, b):
    x, y = ctx.must("look", obs.structure, a.s), obs.structure(b.s)
    if x != y:
        ctx.fail("space-changed", obs.diff(x, y))
    if rng(a.s) != rng(b.s):
        ctx.fail("random-state-changed", "")
    if not ctx.must("eq", a.s.__eq__, b.s) or not (b.s == a.s):
        ctx.fail("space-not-equal", "")
    for n in a.s:
        if not (a.s[n] == b.s[n]) or not (b.s[n] == a.s[n]) or a.s[n].meta != b.s[n].meta:
            ctx.fail("hyperparameter-not-equal", n)
        if hash_of(a.s[n]) != hash_of(b.s[n]):
            ctx.fail("hyperparameter-hash", n)
    for p, q in zip([*a.s.conditions, *a.s.forbidden_clauses], [*b.s.conditions, *b.s.forbidden_clauses]):
        if not (p == q) or not (q == p) or repr(p) != repr(q):
            ctx.fail("piece-not-equal", f"{p} {q}")
    if len(a.pool) != len(b.pool):
        ctx.fail("pool", "")
    for k, (c, d) in enumerate(zip(a.pool, b.pool)):
        if obs.key(c) != obs.key(d) or obs.vec(c) != obs.vec(d) or hash(c) != hash(d) or len(c) != len(d):
            ctx.fail("configuration-changed", f"{dict(c)} {dict(d)}")
        if k == 0 and (not (c == d) or not (d == c)):
            ctx.fail("configuration-not-equal", f"{dict(c)} {dict(d)}")


def hash_of(x):
    try:
        return hash(x)
    except TypeError:
        return None
