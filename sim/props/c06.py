"""C06: neighbourhood generation yields only valid one-step neighbours."""

from __future__ import annotations

from collections import Counter

from .common import *  # noqa: F403

from ConfigSpace import util as U

RUNS = {"quick": 9000, "thorough": 200000}
RULE = (
    "several one-exchange streams over one or more configurations, plain and distorted "
    "randomness, advanced in a random interleaving, mixed with reads and samples, some "
    "dropped; non-trivial: at least one neighbour was judged on a space with a condition or clause"
)
ASSUMPTIONS = [
    "neighbours within 1e-9 of a continuous threshold are not judged",
    "running out of tries with a distorted stream, many neighbours or a small spread is allowed to raise",
]


def gen(r, tier, i):
    ref = gen_ref(r)
    srcs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        srcs.append(G.gen_config_values(r, ref) if r.random() < 0.8 else "default")
    streams = []
    for _ in range(r.choice([1, 1, 2, 3])):
        streams.append({
            "src": r.randrange(10), "rs": rand.gen(r, 0.5), "int": r.random() < 0.3,
            "num": r.choice([1, 2, 4, 4, 4, 8, 20]), "std": r.choice([None, 0.2, 0.2, 0.05, 0.5, 1.0]),
        })
    ops = []
    for _ in range(r.choice([5, 20, 60])):
        z = r.random()
        if z < 0.86:
            ops.append({"op": "next", "s": r.randrange(10), "n": r.choice([1, 1, 2, 5, 30])})
        elif z < 0.9:
            ops.append({"op": "drop", "s": r.randrange(10)})
        elif z < 0.94:
            ops.append({"op": "sample", "n": r.choice([1, 3])})
        elif z < 0.97:
            ops.append({"op": "read", "s": r.randrange(10)})
        else:
            # a stream over one of the neighbours
            ops.append({"op": "hop", "s": r.randrange(10), "num": r.choice([1, 4]), "seed": r.randrange(2**31)})
    return {**gen_sub(r, ref), "items_src": srcs, "items_streams": streams, "ops": ops, "drain": r.random() < 0.7}


def gen_sub(r, ref):
    return {"spec": ref.spec(), "build": G.gen_build(r, ref) if r.random() < 0.5 else None, "via": r.choice(build.VIA)}


class Stream:
    def __init__(self, ctx, ref, space, src, st):
        self.ctx, self.ref, self.st, self.src, self.s = ctx, ref, st, src, space
        self.vals = obs.values(src)
        self.vec = obs.vec(src)
        rs = st["rs"]
        self.plain = not (rs.get("p") or rs.get("rep") or rs.get("burst"))
        seed = rs["seed"] if st["int"] and self.plain else rand.make(rs, ctx)
        kw = {} if st["std"] is None else {"stdev": st["std"]}
        self.g = U.get_one_exchange_neighbourhood(src, seed=seed, num_neighbors=st["num"], **kw)
        self.per = Counter()
        self.live = True
        self.last = None

    def limit(self, k):
        h = self.ref.hps[k]
        if h["k"] == "cat":
            return len(h["vals"]) - 1
        if h["k"] == "ord":
            return min(2, len(h["vals"]) - 1)
        return self.st["num"]

    def always_gives_up(self):
        """The number of tries is bounded, so a rare unlucky stream may run out of them."""
        kw = {} if self.st["std"] is None else {"stdev": self.st["std"]}
        lost = 0
        for seed in range(20):
            g = U.get_one_exchange_neighbourhood(self.src, seed=seed, num_neighbors=self.st["num"], **kw)
            lost += not self.ctx.lib(list, g).ok
        return lost > 5

    def step(self):
        ctx = self.ctx
        r = ctx.lib(next, self.g, None)
        if not r.ok:
            self.live = False
            st = self.st
            if r.err == "ValueError" and "enough neighbors" in str(r.exc) and not (
                self.plain and st["num"] <= 4 and (st["std"] or 0.2) >= 0.2 and self.always_gives_up()
            ):
                ctx.probe("gave-up")
                return
            ctx.fail("exception:" + r.err, f"{r.exc!r} from {self.vals} with {st}")
        if r.value is None:
            ctx.ev("end")
            ctx.probe("exhausted")
            self.live = False
            return
        self.judge(r.value)

    def judge(self, x):
        ctx, ref, v = self.ctx, self.ref, self.vals
        new = obs.values(x)
        ctx.ev("nbr", obs.key(x))
        self.last = x
        if x.config_space is not self.s:
            ctx.fail("other-space", "")
        try:
            bad = ref.judge(new)
            if bad:
                ctx.fail("invalid:" + bad[0], f"{v} -> {new}: {bad}")
            ks = []
            for k in v:
                if k in new and new[k] != v[k]:
                    want, why = ref.assign(v, k, new[k])
                    if want is not None and obs.same_values(new, want, ref):
                        ks.append(k)
        except Ambiguous:
            ctx.probe("abstained")
            return
        if not ks:
            ctx.fail("no-neighbour", f"{v} -> {new}")
        r = ctx.lib(x.check_valid_configuration)
        if not r.ok:
            ctx.fail("rejected", f"{new}: {r.exc!r}")
        ctx.probe("judged")
        if set(new) != set(v):
            ctx.probe("activity-changed")
        if len(ks) == 1:
            self.per[ks[0]] += 1
            if self.per[ks[0]] > self.limit(ks[0]):
                ctx.fail("too-many", f"{self.per[ks[0]]} neighbours along {ks[0]} of {v}, num={self.st['num']}")
        if ref.conds or ref.forbs:
            ctx.nontrivial = True

    def source_ok(self):
        if obs.vec(self.src) != self.vec or obs.values(self.src) != self.vals:
            self.ctx.fail("source-changed", f"{self.vals} -> {obs.values(self.src)}")


def run(plan, ctx):
    ref, s = make_space(plan, seed=5, ctx=ctx)
    cfgs = []
    for v in plan["items_src"]:
        if v == "default":
            cfgs.append(ctx.must("default", s.get_default_configuration))
            continue
        try:
            if ref.judge(v) is not None:
                continue
        except Ambiguous:
            continue
        cfgs.append(ctx.must("config", CS.Configuration, s, values=v))
    if not cfgs or not plan["items_streams"]:
        raise BadPlan
    struct = obs.structure(s)
    ss = [Stream(ctx, ref, s, cfgs[st["src"] % len(cfgs)], st) for st in plan["items_streams"]]
    cheap = share(ref) >= 0.02
    order = []
    for op in plan["ops"]:
        if op["op"] == "sample":
            if cheap:
                ctx.must("sample", s.sample_configuration, op["n"])
            continue
        t = ss[op["s"] % len(ss)]
        order.append((op["op"], op["s"] % len(ss)))
        if op["op"] == "next":
            for _ in range(op["n"]):
                if t.live:
                    t.step()
        elif op["op"] == "drop" and t.live:
            t.live = False
            ctx.must("close", t.g.close)
            ctx.probe("dropped")
        elif op["op"] == "read":
            dict(t.src)
            t.source_ok()
        elif op["op"] == "hop" and t.last is not None and len(ss) < 6:
            ss.append(Stream(ctx, ref, s, t.last, {"rs": {"seed": op["seed"]}, "int": True, "num": op["num"], "std": None}))
            ctx.probe("hop")
    if plan["drain"]:
        for t in ss:
            n = 0
            while t.live and n < 400:
                t.step()
                n += 1
            if n == 400 and sum(map(t.limit, t.vals)) < 400:
                ctx.fail("too-many", f"more than 400 neighbours of {t.vals}")
    for t in ss:
        t.source_ok()
    if obs.structure(s) != struct:
        ctx.fail("space-changed", obs.diff(struct, obs.structure(s)))
    if len(ss) > 1:
        ctx.schedule = ctx.digest()
