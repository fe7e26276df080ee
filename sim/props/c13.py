"""C13: concurrent read-only use of one space equals sequential use."""

from __future__ import annotations

from .. import sched
from ..session import Session, gen_op
from .c12 import compare, together
from .common import *  # noqa: F403

RUNS = {"quick": 3000, "thorough": 30000}
RULE = (
    "two or three threads query one shared space and shared configurations, switched at source "
    "lines, calls and function entries inside ConfigSpace as the plan says; every answer is "
    "compared with the same program run alone on a twin, samples by number and validity; "
    "non-trivial: at least two switches inside library code; interleavings are told apart by "
    "(thread, place) at each switch"
)
ASSUMPTIONS = [
    "threads change places only inside ConfigSpace code, not inside numpy, scipy, json or copy calls",
    "shared configurations are only read",
]

OPS = ("nbr", "nbr", "rnd", "default", "cfg", "cfg", "vec", "check", "active", "values", "values", "hash", "hp_sample", "hp_sample",
       "hp_nbr", "hp_nbr", "pdf", "pdf", "hp_misc", "serial", "struct", "cond_eval", "vcheck", "ccheck", "reload", "priors", "copy",
       "eq", "impute", "deact", "repr")


def prepare():
    sched.lines_on()


def finish(tot):
    return {"switches": tot["probes"].get("switches", 0), "switch_points_passed": tot["probes"].get("points", 0)}


def gen(r, tier, i):
    n = r.choice([2, 2, 3])
    if r.random() < 0.25:
        return judging(r, n)
    sp = gen_spec(r, deep=0.02)
    ref = RefSpace.of(sp["spec"])
    kinds = list(OPS) if r.random() < 0.5 else r.sample(OPS, 4)  # often the same few everywhere
    if r.random() < 0.5:
        kinds += ["sample"] * r.choice([1, 4])
    progs = [{"ops": [gen_op(r, ref, kinds) for _ in range(r.choice([1, 2, 4, 6]))]} for _ in range(n)]
    if r.random() < 0.3:
        progs[1] = {"ops": [dict(op) for op in progs[0]["ops"]]}
    hot = sched.gen_hot(r, [2, 1, 3, 2, 4])
    return {**sp, "seed": r.randrange(2**31), "programs": progs, "items_pool": [G.gen_config_values(r, ref, 20) for _ in range(r.choice([1, 2, 4]))],
            "pool_as": r.choice(["values", "vector", "mixed"]), "drawn": r.choice([0, 2]),
            "ops_switches": sched.gen_switches(r, n, bool(hot)), "items_hot": hot, "first": r.randrange(n)}


def judging(r, n):
    """All threads judge, over and over, configurations that differ in a little."""
    sw = G.swarm(r)
    sw.update(n=r.choice([2, 3, 4, 6]), rel=r.choice([0.25, 0.9]), nforb=r.choice([1, 2, 4]))
    sp = gen_spec(r, sw=sw)
    ref = RefSpace.of(sp["spec"])
    kinds = r.sample(("cfg", "cfg", "vec", "vcheck", "ccheck", "check", "active", "cond_eval", "nbr", "sample"), r.choice([1, 2]))
    progs = [{"ops": [gen_op(r, ref, kinds) for _ in range(r.choice([4, 8, 14]))]} for _ in range(n)]
    hot = sched.gen_hot(r, [2, 1, 2, 1, 5])
    return {**sp, "seed": r.randrange(2**31), "programs": progs, "items_pool": [G.gen_config_values(r, ref, 20) for _ in range(r.choice([2, 4, 6]))],
            "pool_as": "vector", "drawn": r.choice([0, 4]),
            "ops_switches": sched.gen_switches(r, n, bool(hot)), "items_hot": hot, "first": r.randrange(n)}


class Reader(Session):
    """A session on a shared space: samples are judged, not compared."""

    def __init__(self, space, pool, ref, twin):
        super().__init__(space, list(pool), max_pool=len(pool) + 3)
        self.ref, self.twin = ref, twin
        self.bad = None

    def keep(self, c):
        if len(self.pool) < self.max:
            self.pool.append(c)
        else:
            self.pool[self.max - 1] = c

    def _sample(self, op):
        n = op["n"]
        got = self.s.sample_configuration(None if n == 1 else n)
        cs = got if isinstance(got, list) else [got]
        if len(cs) != n:
            self.bad = self.bad or ("sample-count", f"{len(cs)} instead of {n}")
        for c in cs:
            v = obs.values(c)
            try:
                why = self.ref.judge(v)
            except Ambiguous:
                continue
            if why:
                self.bad = self.bad or ("sample-invalid", f"{v}: {why}")
        return "sampled"


def world(plan, ref, batches):
    """One fresh space with its configurations."""
    s = build.script(ref, batches, seed=plan["seed"], via=plan["via"])
    pool = []
    for k, v in enumerate(plan["items_pool"]):
        c = CS.Configuration(s, values=v)
        if plan["pool_as"] == "vector" or plan["pool_as"] == "mixed" and k % 2:
            c = CS.Configuration(s, vector=np.array(c.get_array()))
        pool.append(c)
    if plan["drawn"]:
        pool += s.sample_configuration(plan["drawn"])
    if not pool:
        pool.append(s.get_default_configuration())
    return s, pool


def program(u, ops, log):
    def go():
        for op in ops:
            log.append(f"{op['op']} " + u.outcome(op))

    return go


def run(plan, ctx):
    ref, batches = load_plan(plan)
    if not G.accepted(ref, batches) or share(ref, 40) < 0.03:
        raise BadPlan
    for p in plan["programs"]:
        if any(op.get(k) not in (None, *ref.hps) for op in p["ops"] for k in ("h", "k")):
            raise BadPlan
    try:
        if any(ref.judge(v) for v in plan["items_pool"]):
            raise BadPlan
    except Ambiguous:
        raise BadPlan from None
    twin = build.space(ref)
    # each program alone, on a space nobody has touched
    sched.lines_on()
    alone, w = [], sched.Watch()
    for p in plan["programs"]:
        s, pool = ctx.must("build", world, plan, ref, batches)
        log = []
        with w:
            r = ctx.lib(program(Reader(s, pool, ref, twin), p["ops"], log), budget=30_000_000)
        if not r.ok:
            raise r.exc
        alone.append(log)
    # all of them on one
    s, pool = world(plan, ref, batches)
    before = obs.canon(obs.serial(s))
    us = [Reader(s, pool, ref, twin) for _ in plan["programs"]]
    logs = [[] for _ in us]
    together(ctx, plan, [program(u, p["ops"], lg) for u, p, lg in zip(us, plan["programs"], logs)], w.choose(plan["items_hot"]))
    for u in us:
        if u.bad:
            ctx.fail(*u.bad)
    compare(ctx, logs, alone)
    if obs.canon(obs.serial(s)) != before or not (s == twin):
        ctx.fail("space-changed", "by read-only use")
