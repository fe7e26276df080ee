"""C12: work on separate spaces in different threads does not interfere."""

from __future__ import annotations

import os
import shutil
import tempfile

from .. import boot, build as B, sched
from ..session import Session, gen_op
from .common import *  # noqa: F403

RUNS = {"quick": 3000, "thorough": 20000}
RULE = (
    "two or three threads that each build, use, change, save and reload their own space, "
    "switched at source lines, calls and function entries inside ConfigSpace as the plan says; "
    "every result is compared with the same program run alone; non-trivial: at least two "
    "switches inside library code; interleavings are told apart by (thread, place) at each switch"
)
ASSUMPTIONS = [
    "threads change places only inside ConfigSpace code, not inside numpy, scipy or json calls",
    "the programs of different threads share no objects",
]

OPS = ("sample", "sample", "sample", "seed", "nbr", "nbr", "rnd", "default", "cfg", "cfg", "set", "set", "set", "vec", "check", "active",
       "values", "hash", "hp_sample", "hp_nbr", "hp_nbr", "pdf", "pdf", "hp_misc", "serial", "struct", "cond_eval", "vcheck", "ccheck",
       "reload", "priors", "copy", "eq", "impute", "deact", "repr")
# what all threads of a run may do over and over; a random neighbour can cost seconds
FOCUS = tuple(k for k in OPS if k != "rnd") + ("hp_nbr", "hp_nbr", "hp_nbr", "hp_sample", "nbr", "sample", "sample", "sample")


# what one hyperparameter offers
UNIT = ("hp_nbr", "hp_nbr", "hp_nbr", "hp_sample", "pdf", "hp_misc")

MASS = ("sample", "sample", "sample", "cond_eval", "vcheck")


def prepare():
    sched.lines_on()
    shutil.rmtree(os.path.join(boot.VERIF, "scratch"), ignore_errors=True)


def finish(tot):
    shutil.rmtree(os.path.join(boot.VERIF, "scratch"), ignore_errors=True)
    return {"switches": tot["probes"].get("switches", 0), "switch_points_passed": tot["probes"].get("points", 0)}


def gen_program(r, like=None, kinds=OPS):
    if like is None and set(kinds) <= set(UNIT):
        sw = G.swarm(r)
        sw.update(n=1, nforb=0, pcond=0)
        sp = gen_spec(r, sw=sw, deep=0)
    elif like is None and kinds is MASS:
        # many clauses or conditions, judged for many candidates at once
        sw = G.swarm(r)
        sw.update(nforb=r.choice([1, 3, 6]), pcond=r.choice([0, 0.5, 0.9]), n=r.choice([2, 3, 4]))
        sp = gen_spec(r, sw=sw, deep=0, min_accept=0.1)
    elif like is None and kinds is not OPS and r.random() < 0.5:
        sw = G.swarm(r)
        sw.update(nforb=r.choice([2, 4]), pcond=r.choice([0.3, 0.6]), n=r.choice([3, 4, 5]))
        sp = gen_spec(r, sw=sw)
    else:
        sp = gen_spec(r, deep=0.02) if like is None else dict(like)
    ref = RefSpace.of(sp["spec"])
    ops = [gen_op(r, ref, kinds) for _ in range(r.choice([2, 4, 8]))]
    if set(kinds) <= set(UNIT):
        ops = [op for op in ops if op["op"] != "hp_nbr" or op.setdefault("std", r.choice([0.1, 0.3, 0.5]))]
    elif kinds is MASS:
        ops = [dict(op, n=r.choice([3, 8, 30])) if op["op"] == "sample" else op for op in ops]
    elif kinds is not OPS and r.random() < 0.4:
        # always the same hyperparameter
        one = next((op for op in ops if "h" in op), None)
        ops = [dict(op, h=one["h"], v=one["v"]) if "h" in op else op for op in ops]
    if kinds is not OPS:
        return {**sp, "seed": r.randrange(2**31), "ops": ops}
    for _ in range(r.choice([0, 0, 1, 2])):
        ops.insert(r.randrange(len(ops) + 1), {"op": "file"})
    disc = [n for n in sorted(ref.hps) if ref.hps[n]["k"] in ("cat", "ord", "uint")]
    if disc and r.random() < 0.5:
        for j in range(r.choice([1, 2, 4])):
            k = r.choice(disc)
            op = {"op": "grow", "j": j, "n": r.choice([1, 2, 3, 5]), "k": k, "v": G.pick_value(r, ref.hps[k])}
            at = r.randrange(len(ops) + 1)
            ops.insert(at, op)
            for _ in range(r.choice([0, 1, 2])):
                ops.insert(at + 1, {"op": "set", "c": r.randrange(5), "k": k, "v": G.pick_value(r, ref.hps[k])})
            if r.random() < 0.5:
                ops.insert(at + 1, {"op": "sample", "n": 2})
    return {**sp, "seed": r.randrange(2**31), "ops": ops}


def gen(r, tier, i):
    n = r.choice([2, 2, 2, 3])
    # some runs have all threads do one or two things only, over and over
    z = r.random()
    kinds = OPS if z < 0.48 else r.sample(FOCUS, r.choice([1, 2])) if z < 0.75 else r.sample(UNIT, 2) if z < 0.88 else MASS
    first = gen_program(r, kinds=kinds)
    progs = [first]
    for _ in range(n - 1):
        # often near-identical spaces: whatever is shared between them is shared by content
        like = {k: first[k] for k in ("spec", "build", "via")} if r.random() < 0.5 else None
        if like and r.random() < 0.5:
            like = {**like, "spec": varied(r, like["spec"])}
            like["build"] = None
        progs.append(gen_program(r, like, kinds))
        if like and r.random() < 0.5:
            # the same calls; only the random streams, and perhaps one argument, differ
            progs[-1]["ops"] = [other(r, op) for op in first["ops"]]
    for p in progs:
        if p["spec"]["conds"]:
            # looking for a random neighbour among conditions can cost seconds
            p["ops"] = [op for op in p["ops"] if op["op"] != "rnd"]
    hot = sched.gen_hot(r, [5, 2, 1, 3, 0], 0.4 if kinds is not MASS else 0.1)
    return {"programs": progs, "ops_switches": sched.gen_switches(r, n, bool(hot)), "items_hot": hot, "first": r.randrange(n), "solo_first": bool(hot) or r.random() < 0.3}


def other(r, op):
    if "seed" not in op:
        return op
    op = dict(op, seed=r.randrange(2**31))
    if op["op"] == "hp_nbr" and r.random() < 0.7:
        op["std"] = r.choice([0.01, 0.1, 0.2, 0.6, 0.9])
    if op["op"] == "nbr" and r.random() < 0.3:
        op["num"] = r.choice([1, 2, 3, 5])
    return op


def varied(r, spec):
    """The same names and shape, other details."""
    import json

    out = json.loads(json.dumps(spec))
    for h in out["hps"]:
        if h["k"] in ("ufloat", "uint") and r.random() < 0.7:
            h["hi"] = h["hi"] * 2 if h["hi"] > 0 else h["hi"] + 1
        elif h["k"] == "cat" and r.random() < 0.7:
            h["weights"] = [1.0 + r.randrange(4) for _ in h["vals"]]
        elif "alpha" in h and r.random() < 0.7:
            h["alpha"] = 3.5 if h["alpha"] != 3.5 else 2
    return out if RefSpace.of(out).default_ok() else spec


class User(Session):
    """A session that also saves files and extends its space."""

    def __init__(self, space, dir, k):
        super().__init__(space)
        self.dir, self.k = dir, k

    def _file(self, op):
        path = os.path.join(self.dir, f"{'abc'[self.k]}.json")
        self.s.to_json(path)
        t = CS.ConfigurationSpace.from_json(path)
        t.seed(4)
        return f"{t == self.s} {obs.canon(obs.serial(t))} {obs.key(t.sample_configuration())}"

    def _grow(self, op):
        hs = [CS.UniformIntegerHyperparameter(f"g{op['j']}_{i}", 1, 9 + i, log=i % 2 == 0) for i in range(op["n"])]
        self.pool.clear()
        self.s.add(*hs, *[CS.EqualsCondition(h, self.s[op["k"]], op["v"]) for h in hs])
        if op["n"] > 1:
            self.s.add(CS.ForbiddenAndConjunction(CS.ForbiddenEqualsClause(hs[0], 9), CS.ForbiddenInClause(hs[1], [7, 8])))
        return obs.canon(obs.structure(self.s)) + str(obs.samples(self.s, 2))


def program(plan, k, dir, log):
    ref, batches = plan

    def go():
        try:
            s = B.script(ref[0], batches, seed=ref[1], via=ref[2])
        except Exception as e:
            log.append(f"build err {type(e).__name__}: {e}"[:200])
            return
        log.append("built " + repr(s))
        u = User(s, dir, k)
        u.twin = None
        for op in ref[3]:
            log.append(f"{op['op']} " + u.outcome(op))

    return go


def load_programs(plan):
    out = []
    for p in plan["programs"]:
        ref, batches = load_plan(p)
        if not G.accepted(ref, batches) or share(ref, 40) < 0.03:
            raise BadPlan
        if any(op.get(k) not in (None, *ref.hps) for op in p["ops"] for k in ("h", "k")):
            raise BadPlan
        out.append(((ref, p["seed"], p["via"], p["ops"]), batches))
    return out


def run(plan, ctx):
    progs = load_programs(plan)
    base = os.path.join(boot.VERIF, "scratch")
    os.makedirs(base, exist_ok=True)
    dir = tempfile.mkdtemp(dir=base)
    try:
        alone, hot = None, ()
        if plan["solo_first"]:
            sched.lines_on()
            with sched.Watch() as w:
                alone = solo(ctx, progs, dir)
            hot = w.choose(plan["items_hot"])
        logs = [[] for _ in progs]
        together(ctx, plan, [program(p, k, dir, logs[k]) for k, p in enumerate(progs)], hot)
        if alone is None:
            alone = solo(ctx, progs, dir)
    finally:
        shutil.rmtree(dir, ignore_errors=True)
    compare(ctx, logs, alone)


def together(ctx, plan, fns, hot):
    sched.lines_on()
    s = sched.Sched(fns, plan["ops_switches"], hot)
    r = ctx.lib(s.run, plan["first"], budget=30_000_000)
    if not r.ok:
        if isinstance(r.exc, sched.Deadlock):
            ctx.fail("deadlock", "all threads wait for each other")
        raise r.exc
    ctx.schedule = r.value
    ctx.probe("switches", s.made)
    ctx.probe("points", s.points)
    ctx.probe("hot-lines-hit", s.hits)
    ctx.fired["switch"] += s.made
    ctx.planned["switch"] += len(plan["ops_switches"])
    ctx.nontrivial = s.made >= 2
    ctx.ev("schedule", r.value, s.made, s.points)


def solo(ctx, progs, dir):
    out = []
    for k, p in enumerate(progs):
        log = []
        r = ctx.lib(program(p, k, dir, log), budget=30_000_000)
        if not r.ok:
            raise r.exc
        out.append(log)
    return out


def compare(ctx, logs, alone):
    for k, (a, b) in enumerate(zip(logs, alone)):
        for x, y in zip(a, b):
            ctx.ev(k, y[:60])
            if x != y:
                j = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                ctx.fail("differs:" + y.split(" ", 1)[0], f"thread {k}: {x[:30]} … {x[max(0, j - 60):j + 200]} alone: {y[max(0, j - 60):j + 200]}")
        if len(a) != len(b):
            ctx.fail("differs:length", f"thread {k}")
