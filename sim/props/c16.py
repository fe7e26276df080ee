"""C16: an interrupted query can simply be retried."""

from __future__ import annotations

import copy

from ..session import READ, Session, gen_op
from .c05 import fault, rng
from .c15 import twins, world
from .common import *  # noqa: F403

RUNS = {"quick": 3000, "thorough": 40000}
RULE = (
    "histories of queries, most of them first interrupted one to three times at a random call "
    "made inside them and then repeated, against a twin that is never interrupted; "
    "non-trivial: at least one query was interrupted and then repeated"
)
ASSUMPTIONS = [
    "interrupts arrive at calls and function entries inside the library, one per attempt",
    "a space drawn from is seeded again before the draw is repeated",
]


def gen(r, tier, i):
    sp = gen_spec(r, deep=0.02)
    ref = RefSpace.of(sp["spec"])
    kinds = r.sample(READ, 5) if r.random() < 0.6 else READ
    ops = []
    for _ in range(r.choice([3, 6, 10])):
        ops.append({"op": "q", "do": gen_op(r, ref, kinds), "seed": r.randrange(999),
                    "faults": [fault(r) for _ in range(r.choice([0, 1, 1, 2, 3]))], "look": r.random() < 0.5})
    return {**sp, "seed": r.randrange(2**31), "ops": ops, "items_pool": [G.gen_config_values(r, ref, 20) for _ in range(r.choice([1, 2, 3]))],
            "pool_as": r.choice(["values", "vector", "mixed"])}


def run(plan, ctx):
    ref, batches = load_plan(plan)
    if not G.accepted(ref, batches) or share(ref, 40) < 0.03:
        raise BadPlan
    try:
        if any(ref.judge(v) for v in plan["items_pool"]):
            raise BadPlan
    except Ambiguous:
        raise BadPlan from None
    a, b = ctx.must("build", world, plan, ref, batches), world(plan, ref, batches)
    hit = False
    for op in plan["ops"]:
        do = op["do"]
        if any(do.get(x) not in (None, *ref.hps) for x in ("h", "k")):
            continue
        if do["op"] == "sample":
            for z in (a, b):
                z.s.seed(op["seed"])
        fired, swallowed = False, []
        for f in op["faults"]:
            # Count on a copy, so that nothing on this side is warm.
            s, pool = copy.deepcopy((a.s, a.pool))
            n = ctx.count_points(Session(s, pool).do, do)
            pool = list(a.pool)
            state = rng(a.s)
            z = Session(a.s, pool)
            r = ctx.lib(z.do, do, fault={"kind": f["kind"], "at": 1 + int(f["frac"] * n)})
            ctx.ev("interrupted", do["op"], r.err, r.fired)
            if r.ok or not r.fired:
                if r.fired:
                    swallowed.append((r.fired, "ok " + r.value))
                if do["op"] == "sample":
                    a.s.seed(op["seed"])
                continue
            fired = hit = True
            ctx.probe("interrupted:" + do["op"])
            if do["op"] == "sample":
                a.s.seed(op["seed"])
            elif rng(a.s) != state:
                ctx.fail("random-state-changed", f"{do['op']} interrupted at {r.fired}")
            where = r.fired
        if fired and op["look"]:
            twins(ctx, a, b)
        x, y = a.outcome_in(ctx, do), b.outcome_in(ctx, do)
        ctx.ev(do["op"], x)
        if x != y:
            ctx.fail("behaves-differently:" + do["op"], f"{do}: {x[:400]} instead of {y[:400]}" + (f" after an interrupt at {where}" if fired else ""))
        for w, got in swallowed:
            if got != y:
                ctx.fail("wrong-answer:" + do["op"], f"{do}: {got[:400]} instead of {y[:400]} with a failure at {w}")
        ctx.nontrivial |= fired
    if hit:
        twins(ctx, a, b)
        for do in ({"op": "sample", "n": 3}, {"op": "cond_eval", "c": 0}, {"op": "nbr", "c": 1, "seed": 7, "num": 2, "take": 9, "int": True}):
            x, y = a.outcome_in(ctx, do), b.outcome_in(ctx, do)
            if x != y:
                ctx.fail("behaves-differently:" + do["op"], f"{do}: {x[:400]} instead of {y[:400]}")
