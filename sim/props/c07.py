"""C07: assigning to a configuration is all-or-nothing and follows the conditions."""

from __future__ import annotations

import copy

from .common import *  # noqa: F403

RUNS = {"quick": 15000, "thorough": 300000}
RULE = (
    "histories of assignments (legal, illegal, to inactive or unknown names), partial reads "
    "and interrupted assignments on several configurations of one space, checked step by "
    "step against the model; non-trivial: an assignment switched something on or off, was "
    "refused or was interrupted"
)
ASSUMPTIONS = [
    "assignments whose effect hinges on a continuous value within 1e-9 of a threshold are skipped",
    "interrupts arrive at calls and function entries inside the library, one per assignment",
]

FORMS = ("plain", "plain", "numpy", "float", "str")


def shaped(h, v, form):
    """The same value in another type a user may pass."""
    if form == "numpy" and type(v) in (int, float, str, bool):
        return {int: np.int64, float: np.float64, str: np.str_, bool: np.bool_}[type(v)](v)
    if form == "float" and h["k"] in INTS and type(v) is int:
        return float(v)
    return v


BAD = ("nan", "inf", "none", "text")


def bad_value(x):
    return {"nan": float("nan"), "inf": float("inf"), "none": None, "text": "zzz"}[x]


def gen(r, tier, i):
    ref = gen_ref(r, deep=0.1)
    names = sorted(ref.hps)
    # those others hang on are the interesting ones
    parents = [n for n in names if ref.children(n)] or names
    ops = []
    for _ in range(r.choice([4, 12, 30])):
        z = r.random()
        c = r.randrange(10)
        k = r.choice(parents) if r.random() < 0.6 else r.choice(names)
        if z < 0.72:
            op = {"op": "set", "c": c, "k": k, "v": G.pick_value(r, ref.hps[k]), "form": r.choice(FORMS)}
            if r.random() < 0.25:
                op["fault"] = {"kind": r.choice(["interrupt", "alloc"]), "frac": r.random() if r.random() < 0.7 else 0.85 + 0.15 * r.random()}
            ops.append(op)
        elif z < 0.8:
            op = {"op": "set", "c": c, "k": k, "v": G.pick_illegal(r, ref.hps[k]), "form": "plain"}
            if r.random() < 0.4:
                op["bad"] = r.choice(BAD)
            if r.random() < 0.1:
                op["k"] = "nowhere"
            ops.append(op)
        else:
            ops.append({"op": "read", "c": c, "ks": r.sample(names, r.randint(0, len(names)))})
    srcs = [G.gen_config_values(r, ref) for _ in range(r.choice([1, 2]))]
    return {**gen_spec_of(r, ref), "items_src": srcs, "samples": r.choice([0, 0, 2, 3]), "seed": r.randrange(2**31), "ops": ops}


def gen_spec_of(r, ref):
    return {"spec": ref.spec(), "build": G.gen_build(r, ref) if r.random() < 0.4 else None, "via": r.choice(build.VIA)}


class One:
    """A configuration and what it ought to hold."""

    def __init__(self, c, want):
        self.c, self.want = c, want


def run(plan, ctx):
    ref, s = make_space(plan, seed=plan["seed"], ctx=ctx)
    pool = []
    for v in plan["items_src"]:
        try:
            if ref.judge(v) is None:
                pool.append(One(ctx.must("config", CS.Configuration, s, values=v), v))
        except Ambiguous:
            pass
    if plan["samples"] and share(ref) >= 0.02:
        for c in ctx.must("sample", s.sample_configuration, plan["samples"] + 1):
            v = obs.values(c)
            try:
                if ref.judge(v) is None:
                    # read from a copy, so that nothing is decoded in c itself
                    c2 = CS.Configuration(s, vector=c.get_array())
                    pool.append(One(c2, v))
            except Ambiguous:
                pass
    if not pool:
        raise BadPlan
    for op in plan["ops"]:
        one = pool[op["c"] % len(pool)]
        if op["op"] == "read":
            for k in op["ks"]:
                if k not in ref.hps:
                    continue
                got = obs.norm(one.c.get(k))
                w = one.want.get(k)
                if not (got == w or (got is not None and w is not None and ref.hps[k]["k"] in CONT and obs.near(got, w))):
                    ctx.fail("reads-differently", f"{k}: {got!r} instead of {w!r}")
            continue
        assign(ctx, ref, s, one, op)
        for o in pool:
            check(ctx, ref, o)


def check(ctx, ref, o, what="holds"):
    got = obs.values(o.c)
    if not obs.same_values(got, o.want, ref):
        ctx.fail(what, f"{got} instead of {o.want}")


def consistent(ctx, ref, s, c):
    """The vector says what the values say."""
    t = CS.Configuration(s, vector=np.array(c.get_array()))
    if not obs.same_values(obs.values(t), obs.values(c), ref):
        ctx.fail("mixture", f"values {obs.values(c)}, vector {obs.values(t)}")


def assign(ctx, ref, s, one, op):
    k = op["k"]
    v = bad_value(op["bad"]) if op.get("bad") else op["v"]
    try:
        new, why = ref.assign(one.want, k, v)
    except Ambiguous:
        ctx.probe("abstained")
        return
    x = v if op.get("bad") or k not in ref.hps else shaped(ref.hps[k], v, op["form"])
    vec = obs.vec(one.c)

    def put(c):
        c[k] = x

    if new is None:
        r = ctx.lib(put, one.c)
        ctx.ev("refused", k, why[0], r.err)
        if r.ok:
            ctx.fail("accepted:" + why[0], f"{k}={v!r} on {one.want}")
        if obs.vec(one.c) != vec:
            ctx.fail("changed-by-refused", f"{k}={v!r} on {one.want} ({why[0]})")
        check(ctx, ref, one, "changed-by-refused")
        ctx.probe("refused:" + why[0])
        ctx.nontrivial = True
        return
    f = op.get("fault")
    if f:
        n = ctx.count_points(put, CS.Configuration(s, vector=np.array(one.c.get_array())))
        r = ctx.lib(put, one.c, fault={"kind": f["kind"], "at": 1 + int(f["frac"] * n)})
        ctx.ev("interrupted", k, r.err, r.fired)
        if not r.ok:
            if r.fired is None:
                ctx.fail("refused-legal", f"{k}={v!r} on {one.want}: {r.exc!r}")
            got = obs.values(one.c)
            consistent(ctx, ref, s, one.c)
            if obs.same_values(got, new, ref) and not obs.same_values(got, one.want, ref):
                one.want = new
                ctx.probe("interrupted-done")
            else:
                check(ctx, ref, one, "mixture")
                ctx.probe("interrupted")
            ctx.nontrivial = True
            new, why = ref.assign(one.want, k, v)
            if new is None:
                ctx.fail("mixture", "no longer assignable")
            r = ctx.lib(put, one.c)
            if not r.ok:
                ctx.fail("refused-after-interrupt", f"{k}={v!r}: {r.exc!r}")
    else:
        r = ctx.lib(put, one.c)
        if not r.ok:
            ctx.fail("refused-legal", f"{k}={v!r} on {one.want}: {r.exc!r}")
    if set(new) != set(one.want):
        ctx.probe("switched")
        ctx.nontrivial = True
    one.want = new
    check(ctx, ref, one, "wrong-result")
    consistent(ctx, ref, s, one.c)
    ctx.ev("set", k, obs.key(one.c))
    r = ctx.lib(one.c.check_valid_configuration)
    if not r.ok:
        ctx.fail("invalid-result", f"{one.want}: {r.exc!r}")
