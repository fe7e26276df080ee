"""C19: draws follow the declared distribution and reach every legal value."""

from __future__ import annotations

import math

from scipy.special import bdtr, bdtrc, betainc, ndtr

from .c18 import gen_hp as wide_hp
from .common import *  # noqa: F403

RUNS = {"quick": 1200, "thorough": 8000}
RULE = (
    "long seeded streams of draws, taken in batches of random sizes and through every way of "
    "drawing, from one to three hyperparameters that share a generator, or configurations "
    "sampled from a space without clauses; every test has an error probability below 1e-10; "
    "non-trivial: at least ten proportions were judged"
)
ASSUMPTIONS = [
    "integers on other than a plain uniform scale follow the continuous law cut into equally wide bins of the range",
    "normal hyperparameters on a log scale are left out: their spread is not given on any scale a user could check",
]
STUBS = ["none: the generator is numpy's own, seeded"]
ALPHA = 1e-10


# ------------------------------------------------------------------ generation
def plain(h):
    return h["k"] != "const" and not (h["k"][0] == "n" and h["log"])


def one(r):
    while True:
        h = wide_hp(r)
        if h["k"] in ("cat", "ord"):
            h["vals"] = ["k%d" % i for i in range(len(h["vals"]))]
        elif h["k"] in ("nfloat", "nint"):
            span = h["hi"] - h["lo"]
            h["mu"] = round(h["lo"] + span * r.choice([0.0, 0.1, 0.5, 0.8, 1.1]), 9)
            h["sigma"] = round(span * r.choice([0.05, 0.1, 0.3, 1.0, 5.0]), 9)
        elif h["k"] in ("bfloat", "bint"):
            h["alpha"], h["beta"] = r.choice([1, 1.2, 2, 3.5, 20]), r.choice([1, 1.2, 2, 4, 50])
        if plain(h) and (h["k"] not in CONT or h["hi"] - h["lo"] > 1e-2):
            return h


def gen(r, tier, i):
    if r.random() < 0.6:
        hps = [{**one(r), "name": "x%d" % j} for j in range(r.choice([1, 1, 2, 3]))]
        total = r.choice([20000, 60000, 150000])
        return {"mode": "hp", "items_hps": hps, "seed": r.randrange(2**31), "n": total, "burst": r.choice([1, 7, 100, 3000, 50000]),
                "mix": r.randrange(2**31), "items_look": [r.random() for _ in range(12)]}
    sw = G.swarm(r)
    sw["nforb"] = 0
    sw["seq"] = False
    sp = gen_spec(r, sw=sw)
    return {"mode": "space", **sp, "seed": r.randrange(2**31), "n": r.choice([2000, 5000, 10000]), "burst": r.choice([1, 5, 9, 60, 3000]),
            "mix": r.randrange(2**31), "items_look": [r.random() for _ in range(12)]}


# ------------------------------------------------------------------ the laws
def unit(h):
    """Distribution function on [0, 1], where 0 and 1 stand for the bounds."""
    if h["k"][0] == "u":
        return lambda u: u
    if h["k"][0] == "b":
        a, b = float(h["alpha"]), float(h["beta"])
        return lambda u: betainc(a, b, u)
    lo, hi, mu, sg = (float(h[x]) for x in ("lo", "hi", "mu", "sigma"))
    a, b = ndtr((lo - mu) / sg), ndtr((hi - mu) / sg)
    if a > 0.5:  # the far tail needs the other side
        a, b = ndtr((mu - lo) / sg), ndtr((mu - hi) / sg)
        return lambda u: (ndtr((mu - lo - u * (hi - lo)) / sg) - a) / (b - a)
    return lambda u: (ndtr((lo + u * (hi - lo) - mu) / sg) - a) / (b - a)


def law(h):
    """P(value <= v) as a function of an array of values."""
    if h["k"] in ("cat", "ord"):
        w = h.get("weights") or [1.0] * len(h["vals"])
        c = np.cumsum(w) / np.sum(w)
        return lambda i: np.where(i < 0, 0.0, c[np.clip(i, 0, len(c) - 1).astype(int)])
    lo, hi, g = float(h["lo"]), float(h["hi"]), unit(h)
    if h["k"] == "uint" and not h["log"]:
        return lambda v: np.clip((v - lo + 1) / (hi - lo + 1), 0, 1)

    def place(x):
        x = np.clip(x, lo, hi)
        return np.log(x / lo) / math.log(hi / lo) if h["log"] else (x - lo) / (hi - lo)

    if h["k"] in INTS:
        # Bin k of size bins of equal width; its end is what P(value <= lo + k) is about.
        return lambda v: np.where(v < lo, 0.0, g(place(lo + (v - lo + 1) * (hi - lo) / (hi - lo + 1))))
    return lambda v: g(place(v))


class Stat:
    def __init__(self, ctx, looks):
        self.ctx, self.looks, self.n = ctx, looks, 0

    def share(self, h, what, k, n, p):
        """k of n draws had a property of probability p."""
        self.n += 1
        if p < 0 or p > 1:
            p = min(1.0, max(0.0, p))
        bad = (p <= 0 and k) or (p >= 1 and k < n)
        if not bad and 0 < p < 1:
            bad = bdtr(k, n, p) < ALPHA / 2 if k < n * p else k > 0 and bdtrc(k - 1, n, p) < ALPHA / 2
        if bad:
            self.ctx.fail("proportion:" + what.split("[")[0], f"{k} of {n} draws, expected {n * p:.1f}: {what} of {h}")

    def follow(self, h, x, what):
        """x: float array; for categories and ordinals the positions."""
        n = len(x)
        if n < 200:
            return
        F = law(h)
        disc = h["k"] not in CONT
        xs = np.sort(x)
        u, at = np.unique(xs, return_index=True)
        if not disc and len(u) < n and h["hi"] - h["lo"] > 1e-2:
            dup = n - len(u)
            # Doubles are plenty; a repeated draw has no business here.
            if dup > 3 + n * n * 1e-8:
                self.ctx.fail("repeated:" + what, f"{dup} of {n} draws repeat others: {h}")
        fn = np.append(at[1:], n) / n
        fm = at / n
        hi, lo = F(u), F(u - 1) if disc else F(u)
        d = max(float(np.max(np.abs(fn - hi))), float(np.max(np.abs(fm - lo))))
        self.n += 1
        if d > math.sqrt(math.log(2 / ALPHA) / (2 * n)):
            j = int(np.argmax(np.maximum(np.abs(fn - hi), np.abs(fm - lo))))
            self.ctx.fail("distribution:" + what, f"at {u[j]!r}: {fn[j]:.4f} of {n} draws, expected {hi[j]:.4f}, for {h}")
        if disc:
            a, b = (0, len(h["vals"]) - 1) if "vals" in h else (h["lo"], h["hi"])
            if b - a <= 80:
                vs = list(range(a, b + 1))
            else:
                vs = [a, a + 1, b - 1, b] + [a + int(z * (b - a)) for z in self.looks]
            for v in vs:
                k = int(np.searchsorted(xs, v, "right") - np.searchsorted(xs, v, "left"))
                p = float(F(np.array(float(v))) - F(np.array(float(v - 1))))
                self.share(h, f"{what}[{v}]", k, n, p)
        # Shares of stretches of the range, the ends among them.
        a, b = (float(xs[0]), float(xs[-1])) if "vals" in h else (float(h["lo"]), float(h["hi"]))
        for z in (0.01, 0.1, 0.9, 0.99, *self.looks[:6]):
            c = a + z * (b - a)
            if h.get("log"):
                c = a * (b / a) ** z
            if disc:
                c = math.floor(c)
            self.share(h, f"{what}-below[{c!r}]", int(np.searchsorted(xs, c, "right")), n, float(F(np.array(float(c)))))

    def all(self, h, x):
        """Overall, in both halves, and after small and after large draws."""
        if len(x) < 400:
            return
        self.follow(h, x, "all")
        m = len(x) // 2
        self.follow(h, x[:m], "half")
        self.follow(h, x[m:], "half")
        mid = np.median(x)
        self.follow(h, x[1:][x[:-1] <= mid], "serial")
        self.follow(h, x[1:][x[:-1] > mid], "serial")

    def apart(self, ha, xa, hb, xb):
        """b follows its law whatever a is (paired draws)."""
        mid = np.median(xa)
        self.follow(hb, xb[xa <= mid], "given")
        self.follow(hb, xb[xa > mid], "given")


def positions(h, vs):
    if h["k"] in ("cat", "ord"):
        at = {c: i for i, c in enumerate(h["vals"])}  # 1 may come back as 1.0
        return np.array([at[obs.norm(v)] for v in vs], dtype=float)
    return np.asarray(vs, dtype=float)


# ------------------------------------------------------------------ execution
def run_hp(plan, ctx, st):
    hs = plan["items_hps"]
    if not hs:
        raise BadPlan
    hps = [ctx.must("build", build.hp, h) for h in hs]
    rs = rand.Real(plan["seed"])
    mix = random.Random(plan["mix"])
    got = [[] for _ in hs]
    left = [plan["n"]] * len(hs)
    calls = 0
    while any(left):
        j = mix.choice([j for j in range(len(hs)) if left[j]])
        h, hp = hs[j], hps[j]
        calls += 1
        k = min(left[j], 1 + mix.randrange(plan["burst"]))
        if calls > 600:
            k = left[j]
        z = mix.choice(["vec", "val", "rvs"]) if h["k"] not in ("cat", "ord") or k < 200 else "vec"
        one = k == 1 and mix.random() < 0.7
        size = None if one else k
        if z == "vec":
            v = ctx.must("draw", hp.sample_vector, size, seed=rs)
            v = np.array([v]) if one else v
            x = v if h["k"] in ("cat", "ord") else ctx.must("to_value", hp.to_value, np.asarray(v))
            x = np.asarray(x, dtype=float)
        else:
            v = ctx.must("draw", hp.sample_value, size, seed=rs) if z == "val" else ctx.must("draw", hp.rvs, size, random_state=rs)
            x = positions(h, [v] if one else v)
        if len(x) != k:
            ctx.fail("count", f"{len(x)} for {k} of {h}")
        got[j].append(x)
        left[j] -= k
    xs = [np.concatenate(g) for g in got]
    for h, x in zip(hs, xs):
        ctx.ev(h["k"], len(x), float(x.sum()))
        st.all(h, x)
        ctx.probe("hp:" + h["k"] + ("-log" if h.get("log") else ""))
    for a in range(len(hs)):
        for b in range(len(hs)):
            if a != b:
                st.apart(hs[a], xs[a], hs[b], xs[b])


def run_space(plan, ctx, st):
    ref, s = make_space(plan, seed=plan["seed"], ctx=ctx)
    if ref.forbs:
        raise BadPlan
    mix = random.Random(plan["mix"])
    rows, left, calls = [], plan["n"], 0
    many = 200 if len(ref.hps) > 3 else 1500
    while left:
        k = min(left, 1 + mix.randrange(plan["burst"]))
        calls += 1
        if calls > many:
            k = left
        if k == 1 and mix.random() < 0.5:
            cs = [ctx.must("sample", s.sample_configuration)]
        else:
            cs = ctx.must("sample", s.sample_configuration, k)
            cs = [cs] if k == 1 and not isinstance(cs, list) else cs
        if len(cs) != k:
            ctx.fail("count", f"{len(cs)} for {k}")
        rows.extend(cs)
        left -= k
    vals = [obs.values(c) for c in rows]
    cols = {}
    for n, h in ref.hps.items():
        on = np.array([n in v for v in vals])
        x = np.full(len(vals), np.nan)
        if h["k"] == "const":
            continue
        x[on] = positions(h, [v[n] for v in vals if n in v])
        cols[n] = x
        ctx.ev(n, int(on.sum()), float(np.nansum(x)))
        if not plain(h):
            continue
        st.all(h, x[on])
        ctx.probe("space:" + h["k"] + ("-active" if n in ref.conds else ""))
    names, above = sorted(cols), {}
    for n in ref.topo():
        ps = ref.parents(n)
        above[n] = ps.union(*(above[p] for p in ps))
    for a in names:
        for b in names:
            # That a is active says something about its ancestors.
            if a == b or b in above[a] or not plain(ref.hps[b]):
                continue
            both = ~np.isnan(cols[a]) & ~np.isnan(cols[b])
            if both.sum() >= 400:
                st.apart(ref.hps[a], cols[a][both], ref.hps[b], cols[b][both])


def run(plan, ctx):
    st = Stat(ctx, plan["items_look"])
    (run_hp if plan["mode"] == "hp" else run_space)(plan, ctx, st)
    ctx.probe("tests", st.n)
    ctx.nontrivial = st.n >= 10
