"""C17: a random neighbour is valid, one step away, and always arrives."""

from __future__ import annotations

from .. import model
from .common import *  # noqa: F403

from ConfigSpace import util as U

RUNS = {"quick": 5000, "thorough": 50000}
RULE = (
    "walks of random neighbours over spaces of all kinds, among them configurations whose "
    "one-step changes are mostly or all forbidden or inactive, with plain and distorted "
    "streams; non-trivial: a neighbour was judged on a space with a condition or clause, or "
    "none was found"
)
ASSUMPTIONS = [
    "neighbours within 1e-9 of a continuous threshold are not judged",
    "giving up is judged only for plain streams where some hyperparameter has valid neighbours only",
]
BUDGET = 20_000_000


# ------------------------------------------------------------------ generation
def steps(h, v):
    """Values one step away; None where there are too many to list."""
    if h["k"] == "cat":
        ok = [x for i, x in enumerate(h["vals"]) if not (h.get("weights") and h["weights"][i] == 0)]
        return [x for x in ok if x != v]
    if h["k"] == "ord":
        i = next(i for i, x in enumerate(h["vals"]) if x == v)
        return [h["vals"][j] for j in (i - 1, i + 1) if 0 <= j < len(h["vals"])]
    if h["k"] == "const":
        return []
    if h["k"] in INTS and h["hi"] - h["lo"] <= 6:
        return [x for x in range(h["lo"], h["hi"] + 1) if x != v]
    return None


def hem_in(r, ref, v, p):
    """Forbid most steps away from v."""
    names = sorted(v)
    for n in names:
        for x in steps(ref.hps[n], v[n]) or ():
            if r.random() >= p or ref.hps[n]["k"] in CONT:
                continue
            rest = [m for m in names if m != n and ref.hps[m]["k"] not in CONT and ref.hps[m]["k"] != "const"]
            f = ["eq", n, x]
            if rest and r.random() < 0.8:
                m = r.choice(rest)
                f = ["and", [["eq", n, x], ["eq", m, v[m]]]]
            if f in ref.forbs:
                continue
            ref.forbs.append(f)
            try:
                ok = ref.default_ok() and ref.judge(v) is None
            except Ambiguous:
                ok = False
            if not ok:
                ref.forbs.pop()


def gen(r, tier, i):
    z = r.random()
    sw = None
    if z < 0.5:
        sw = G.swarm(r)
        sw["n"] = r.choice([1, 1, 2, 2, 3, 4])
        if r.random() < 0.6:
            for k in ("ufloat", "nfloat", "bfloat", "nint", "bint"):
                sw["kinds"][k] = 0
            sw["kinds"]["const"] = r.choice([0, 1, 4])
    ref = gen_ref(r, sw=sw, deep=0.02)
    srcs = []
    for _ in range(r.choice([1, 2])):
        srcs.append(G.gen_config_values(r, ref))
    if r.random() < 0.4:
        hem_in(r, ref, srcs[0], r.choice([0.5, 0.7, 0.9]) if r.random() < 0.8 else 1.0)
    walks = []
    for _ in range(r.choice([1, 2, 4])):
        walks.append({"src": r.randrange(9), "items_seeds": [r.choice([0, 1, 2**32 - 1, r.randrange(2**32)]) if r.random() < 0.2 else r.randrange(2**32) for _ in range(r.choice([1, 3, 8]))],
                      "p": r.choice([0, 0, 0, 0.05, 0.3]), "rep": 0, "burst": r.choice([0, 0, 0, 3, 40])})
    return {"spec": ref.spec(), "build": G.gen_build(r, ref) if r.random() < 0.5 else None, "via": r.choice(build.VIA),
            "items_src": srcs, "as_vector": r.random() < 0.4, "items_walks": walks}


# ------------------------------------------------------------------ execution
class stream:
    """The generator the call makes for itself draws as the plan says."""

    def __init__(self, ctx, w):
        self.w, self.ctx = w, ctx

    def __enter__(self):
        self.real = np.random.RandomState
        w, ctx = self.w, self.ctx
        if not (w["p"] or w["rep"] or w["burst"]):
            return

        class Distorted(rand.SimRandom):
            def __init__(self, seed=None):
                if isinstance(seed, (int, np.integer)):
                    super().__init__({"seed": int(seed), "p": w["p"], "rep": w["rep"], "burst": w["burst"]}, ctx)
                else:
                    super().__init__({"seed": 1}, None)
                    rand.Real.seed(self, seed)

        np.random.RandomState = Distorted

    def __exit__(self, *_):
        np.random.RandomState = self.real


def sure(ref, v):
    """Does an attempt certainly succeed often?"""
    used = {p for e in ref.conds.values() for p in model.expr_parents(e)} | {p for f in ref.forbs for p in model.forb_hps(f)}
    for n, x in v.items():
        h = ref.hps[n]
        if n not in used and "lo" in h and h["lo"] < h["hi"]:
            return True
        st = steps(ref.hps[n], x) if ref.hps[n]["k"] in ("cat", "ord") else None
        if not st:
            continue
        try:
            if all(ref.judge({**v, n: y}) is None for y in st):
                return True
        except Ambiguous:
            continue
    return False


def rarely(ctx, c):
    """The number of tries for one value is bounded, so an unlucky stream may run out of them."""
    return sum(not ctx.lib(U.get_random_neighbor, c, seed, budget=BUDGET).ok for seed in range(20)) <= 5


def step(ctx, ref, s, c, w, seed):
    v, vec = obs.values(c), obs.vec(c)
    with stream(ctx, w):
        r = ctx.lib(U.get_random_neighbor, c, seed, budget=BUDGET)
    if obs.vec(c) != vec or obs.values(c) != v:
        ctx.fail("source-changed", f"{v} -> {obs.values(c)}")
    if not r.ok:
        ctx.ev("none", r.err)
        ctx.probe("none:" + r.err)
        if not isinstance(r.exc, ValueError):
            ctx.fail("exception:" + r.err, f"{r.exc!r} from {v}")
        if not (w["p"] or w["rep"] or w["burst"]) and sure(ref, v) and not ("enough neighbors" in str(r.exc) and rarely(ctx, c)):
            ctx.fail("gave-up", f"{r.exc!r} from {v}")
        ctx.nontrivial = True
        return None
    x = r.value
    if not isinstance(x, CS.Configuration) or x.config_space is not s:
        ctx.fail("not-a-configuration", repr(x))
    new = obs.values(x)
    ctx.ev("nbr", obs.key(x))
    try:
        bad = ref.judge(new)
    except Ambiguous:
        ctx.probe("abstained")
        return None
    if bad:
        ctx.fail("invalid:" + bad[0], f"{v} -> {new}: {bad}")
    if set(new) != set(v):
        ctx.fail("activity-changed", f"{v} -> {new}")
    ks = [k for k in v if new[k] != v[k]]
    if len(ks) != 1:
        ctx.fail("steps", f"{v} -> {new}: {len(ks)} values changed")
    r = ctx.lib(x.check_valid_configuration)
    if not r.ok:
        ctx.fail("rejected", f"{new}: {r.exc!r}")
    h = ref.hps[ks[0]]
    if h["k"] == "ord" and new[ks[0]] not in steps(h, v[ks[0]]):
        ctx.fail("far", f"{v[ks[0]]!r} -> {new[ks[0]]!r} of {h['vals']}")
    ctx.probe("judged:" + h["k"])
    if ref.conds or ref.forbs:
        ctx.nontrivial = True
    return x


def run(plan, ctx):
    ref, s = make_space(plan, seed=5, ctx=ctx)
    cfgs = []
    for v in plan["items_src"]:
        try:
            if ref.judge(v) is not None:
                continue
        except Ambiguous:
            continue
        c = ctx.must("config", CS.Configuration, s, values=v)
        if plan["as_vector"]:
            c = CS.Configuration(s, vector=np.array(c.get_array()))
        cfgs.append(c)
    if not cfgs:
        raise BadPlan
    struct = obs.structure(s)
    for w in plan["items_walks"]:
        c = cfgs[w["src"] % len(cfgs)]
        for seed in w["items_seeds"]:
            x = step(ctx, ref, s, c, w, seed)
            if x is None:
                break
            c = x
        if ctx.probes["none:ValueError"]:
            break  # ten thousand attempts are enough for one run
    if obs.structure(s) != struct:
        ctx.fail("space-changed", obs.diff(struct, obs.structure(s)))
