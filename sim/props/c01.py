"""C01: every sampled configuration is valid."""

from __future__ import annotations

from .. import build, gen as G, obs, rand
from ..model import Ambiguous, RefSpace
from .common import *  # noqa: F403

RUNS = {"quick": 6000, "thorough": 120000}
RULE = (
    "random spaces built by random accepted scripts, sampled between and after the "
    "build steps with plain and distorted random streams; non-trivial: the space has "
    "a condition or a clause and at least one sample was judged"
)
ASSUMPTIONS = [
    "samples within 1e-9 of a continuous threshold are not judged",
    "spaces whose acceptance share is at least 8 percent",
]


def gen(r, tier, i):
    ref = gen_ref(r)
    plan = {"spec": ref.spec(), "build": G.gen_build(r, ref), "via": r.choice(build.VIA), "ops": []}
    for k in range(len(plan["build"])):
        if k == len(plan["build"]) - 1:
            m = r.choice([1, 2, 3])
        else:
            m = 1 if r.random() < 0.25 else 0
        for _ in range(m):
            plan["ops"].append(
                {"after": k, "n": r.choice([None, 1, 2, 5, 5, 17, 40, 120]), "rs": rand.gen(r)}
            )
    return plan


def run(plan, ctx):
    ref, batches = load_plan(plan)
    models = G.partial(ref, batches)
    if models is None:
        raise BadPlan
    s = CS.ConfigurationSpace(name=ref.name, seed=0)
    objs = {}
    last = len(batches) - 1
    for k, b in enumerate(batches):
        ctx.must("add", build.add, s, build.objects(ref, s, objs, b), plan["via"])
        m = models[k]
        for op in plan["ops"]:
            if op["after"] != k and not (k == last and op["after"] > last):
                continue
            if share(m) < 0.02:
                continue
            s.random = rand.make(op["rs"], ctx)
            judge_sampling(ctx, m, s, op["n"])
    if ref.conds or ref.forbs:
        ctx.nontrivial = True


def judge_sampling(ctx, m, s, n):
    got = ctx.must("sample", s.sample_configuration, n)
    cfgs = got if isinstance(got, list) else [got]
    ctx.ev("sample", n, len(cfgs))
    for c in cfgs:
        judge_sample(ctx, m, s, c)


def judge_sample(ctx, m, s, c):
    vals = obs.values(c)
    ctx.ev("cfg", obs.key(c))
    try:
        bad = m.judge(vals)
    except Ambiguous:
        ctx.probe("abstained")
        return
    if bad:
        ctx.fail("invalid-sample:" + bad[0], f"{vals} -> {bad}")
    r = ctx.lib(c.check_valid_configuration)
    if not r.ok:
        ctx.fail("sample-rejected", f"{vals} -> {r.exc!r}")
    r = ctx.lib(s.check_configuration_vector_representation, c.get_array())
    if not r.ok:
        ctx.fail("sample-vector-rejected", f"{vals} -> {r.exc!r}")
    act = ctx.must("active", s.get_active_hyperparameters, c)
    if set(act) != set(vals):
        ctx.fail("active-differs", f"{sorted(act)} vs {sorted(vals)}")
    ctx.probe("judged")
    if len(vals) < len(m.hps):
        ctx.probe("with-inactive")
