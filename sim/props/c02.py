"""C02: sampling returns exactly the requested number, in bounded work."""

from __future__ import annotations

from .common import *  # noqa: F403

RUNS = {"quick": 5000, "thorough": 70000}
RULE = (
    "random spaces, many of them with clauses that reject most candidates (share of "
    "acceptable candidates known from the model), random request sizes, bursts of "
    "draws that all land in a forbidden region; non-trivial: the space has a clause"
)
ASSUMPTIONS = [
    "share of acceptable candidates at least 2 percent (estimated by the model)",
    "work is measured in control-flow events inside ConfigSpace and in random values drawn",
]


def gen(r, tier, i):
    if r.random() < 0.01:
        return {"empty": [r.choice([None, 0, 1, 2, 9]) for _ in range(3)], "seed": r.randrange(99)}
    sw = G.swarm(r) if r.random() > 0.03 else G.chain_swarm(r)
    sw["nforb"] = r.choice([0, 1, 2, 4, 6])
    ref = gen_ref(r, sw=sw, deep=0, min_accept=0.03)
    plan = {"spec": ref.spec(), "build": None, "via": "args", "ops": []}
    low = None
    # a clause on the lowest outcome of one hyperparameter makes bursts unlucky
    cand = [
        h for n, h in ref.hps.items()
        if n not in ref.conds and h["k"] in ("uint", "cat", "ord")
        and len(h.get("vals", [0] * 9)) >= 2
        and (h["k"] != "uint" or not h["log"])
    ]
    if cand and r.random() < 0.6:
        h = r.choice(cand)
        v = h["lo"] if h["k"] == "uint" else h["vals"][0]
        if "weights" in h:
            v = next(x for x, w in zip(h["vals"], h["weights"]) if w > 0)
        ref.forbs.append(["eq", h["name"], v])
        try:
            if not ref.default_ok() or G.acceptance(ref, r) < 0.05:
                ref.forbs.pop()
            else:
                low = h["name"]
        except Ambiguous:
            ref.forbs.pop()
        plan["spec"] = ref.spec()
    for _ in range(r.randint(1, 4)):
        rs = rand.gen(r, plain=0.5)
        if low and r.random() < 0.7:
            rs = {"seed": r.randrange(2**31), "burst": r.choice([1, 5, 20, 100, 400])}
        plan["ops"].append({"n": r.choice([None, 0, 1, 1, 2, 3, 7, 20, 20, 90, 300]), "rs": rs})
    if r.random() < 0.03:
        # far more than one batch
        plan["ops"] = [{"n": r.choice([1000, 1025, 2049, 3000, 4097, 5000, 8193]) + r.choice([0, 0, r.randrange(99)]), "rs": {"seed": r.randrange(2**31)}}]
    return plan


def empty(plan, ctx):
    """A space without hyperparameters has one configuration."""
    s = CS.ConfigurationSpace(seed=plan["seed"])
    for n in plan["empty"]:
        got = ctx.must("sample", s.sample_configuration, n)
        cfgs = got if isinstance(got, list) else [got]
        if len(cfgs) != (1 if n is None else n) or any(dict(c) for c in cfgs):
            ctx.fail("wrong-count", f"n={n}: {got}")
        for c in cfgs:
            ctx.must("check", c.check_valid_configuration)
        ctx.ev("empty", n)


def run(plan, ctx):
    if "empty" in plan:
        return empty(plan, ctx)
    ref, s = make_space(plan, seed=0, ctx=ctx)
    p = share(ref, 250)
    if p < 0.03:
        raise BadPlan
    ctx.nontrivial = bool(ref.forbs)
    size = len(ref.hps) + len(ref.conds) + len(ref.forbs) + 2
    for op in plan["ops"]:
        n = op["n"]
        want = 1 if n is None else n
        rs = op["rs"]
        # A distorted stream changes the share of acceptable candidates: its few
        # distinct outcomes may all be forbidden.  Only bursts are then bounded.
        calm = not rs.get("p") and not rs.get("rep")
        s.random = rand.make(rs, ctx)
        rounds = 6 * (want / 5 + 20) / p + rs.get("burst", 0)
        # a clause count well above the number of hyperparameters makes batches larger
        budget = int(rounds * 80 * size) if calm else 3_000_000
        s0 = ctx.steps
        if not calm and ref.forbs:
            continue
        got = ctx.must("sample", s.sample_configuration, n, budget=budget)
        ctx.ev("sample", n, ctx.steps - s0)
        if ctx.steps - s0 > budget / 20:
            ctx.probe("over-5-percent-of-budget")
        if n is None or n == 1:
            # A size of one gives the configuration itself (deprecated form).
            one = got[0] if isinstance(got, list) and len(got) == 1 else got
            if not isinstance(one, CS.Configuration):
                ctx.fail("wrong-count", f"n={n}: {type(got)}")
            cfgs = [one]
        else:
            if not isinstance(got, list) or len(got) != n:
                ctx.fail("wrong-count", f"n={n}: got {len(got) if isinstance(got, list) else type(got)}")
            cfgs = got
        for c in cfgs:
            if not isinstance(c, CS.Configuration):
                ctx.fail("wrong-type", f"{type(c)}")
        for c in cfgs[:3] + cfgs[-3:]:
            try:
                bad = ref.judge(obs.values(c))
            except Ambiguous:
                continue
            if bad:
                ctx.fail("invalid", f"{obs.values(c)} {bad}")
            ctx.ev(obs.key(c))
        if rs.get("burst"):
            ctx.probe("after-burst")
        if isinstance(s.random, rand.SimRandom):
            # batches grow with the number of clauses per hyperparameter
            mult = max(1.0, ((len(ref.forbs) + len(ref.conds)) / len(ref.hps)) ** 2)
            cap = len(ref.hps) * (60 * mult * (want + 5) / p + 60 * mult * (want + 5) * (1 + rs.get("burst", 0)))
            if s.random.drawn > cap:
                ctx.fail("too-many-draws", f"{s.random.drawn} drawn for n={n}, share {p:.2f}, cap {cap:.0f}")
