"""C18: a hyperparameter's own draws and neighbours are always legal."""

from __future__ import annotations

import copy
import math
import pickle

from .. import model
from .common import *  # noqa: F403

RUNS = {"quick": 24000, "thorough": 120000}
RULE = (
    "histories of draws, neighbour queries and conversions on one hyperparameter of any type, "
    "range, scale and weighting, with plain and distorted streams, results spoilt by the "
    "caller; non-trivial: at least two draws or neighbourhoods were judged"
)
ASSUMPTIONS = [
    "integer ranges up to 2**48 (2**33 on a log scale), where a double still tells neighbouring integers apart",
    "running out of neighbours is judged only for plain streams, up to 4 neighbours and a spread of at least 0.2",
    "continuous neighbours are compared for distinctness on plain streams and positive spreads only",
]
DISCRETE = ("cat", "ord", "const", *INTS)


# ------------------------------------------------------------------ generation
def vals(r, n):
    z = r.random()
    if z < 0.1:
        return [["v", 2.5, 7, None, "w", 11, -3.25, "zz"][i % 8] if i < 8 else "u%d" % i for i in range(n)]
    if z < 0.2:
        return [round(-4 + i * 0.3, 3) for i in range(n)]
    if z < 0.3:
        return [5 * i - 7 for i in range(n)][::-1]
    if z < 0.36:
        return [["t", i] if i % 3 else "s%d" % i for i in range(n)]
    return G.rnd_vals(r, n) if n <= 12 else ["k%d" % i for i in range(n)]


def gen_hp(r):
    k = r.choice(["cat", "cat", "ord", "const", "ufloat", "uint", "uint", "nfloat", "nint", "bfloat", "bint"])
    h = {"k": k, "name": "x"}
    if k in ("cat", "ord"):
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 24, 25, 26, 27, 60])
        h["vals"] = vals(r, n)
        h["default"] = r.randrange(n)
        if k == "cat" and r.random() < 0.4:
            w = [r.choice([0.0, 0.0, 1e-6, 0.1, 1.0, 2.0, 50.0]) for _ in h["vals"]]
            if w[h["default"]] == 0:
                w[h["default"]] = r.choice([1e-3, 1.0])
            h["weights"] = w
        return h
    if k == "const":
        h["value"] = r.choice(["c", 3, 2.5, "x y", 0, -1.5, True, None])
        return h
    log = h["log"] = r.random() < 0.4
    if k in CONT:
        if log:
            h["lo"] = r.choice([1e-8, 1e-3, 0.1, 1.0, 7.5, 1e4])
            h["hi"] = round(h["lo"] * r.choice([1.01, 1.5, 2, 10, 1e3, 1e6]), 13)
        else:
            h["lo"] = r.choice([0.0, 0.0, -1.0, -2.0, 1.0, 10.0, -1e5, 1e6, 0.1, 1 / 3])
            h["lo"] = round(h["lo"], 12)
            h["hi"] = round(h["lo"] + r.choice([1e-3, 0.5, 1.0, 1.0, 3.3, 1e3, 1e7]), 12)
    else:
        span = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 15, 30, 48, 49, 63, 98, 99, 107, 187, 255, 1000, 9999, 10**6, 2**31, 2**48])
        span += r.choice([0, 0, r.randrange(max(1, span // 3) + 1)])
        if log:
            h["lo"] = r.choice([1, 1, 2, 3, 10, 100, 12345])
            span = min(span, 2**33)
        else:
            h["lo"] = r.choice([0, 0, 1, -1, -span, -(span // 2), 5, 10**6, -(10**6)])
        h["hi"] = h["lo"] + span
    lo, hi = h["lo"], h["hi"]
    if k[0] == "n":
        h["mu"] = lo + (hi - lo) * r.choice([0.0, 0.01, 0.3, 0.5, 0.9, 1.0, 1.2 if log else -0.2, 3.0])
        h["sigma"] = (hi - lo) * r.choice([0.001, 0.02, 0.1, 0.3, 1.0, 5.0])
        h["mu"], h["sigma"] = (round(h[x], 12) or 1e-3 for x in ("mu", "sigma"))
        if log and abs(math.log(lo + h["sigma"])) < 0.05:
            h["sigma"] *= 1.5
    if k[0] == "b":
        h["alpha"] = r.choice([1, 1, 1.01, 2, 3.5, 20, 300])
        h["beta"] = r.choice([1, 1, 1.01, 2, 4, 50, 500])
    h["default"] = G.pick_value(r, h)
    return h


def spread(r, h, z):
    n = len(h["vals"]) if "vals" in h else h["hi"] - h["lo"] + 1 if h["k"] in INTS else 0
    few = [1, 1, 2, 3, 4, 7, 20]
    if 2 < n < 400:
        few += [n - 2, n - 1, n, n + 5]
    return {"op": z, "n": max(1, int(r.choice(few))), "std": r.choice([None, None, 0.2, 0.0, 1e-6, 0.01, 0.5, 1.0]),
            "at": r.choice(["pick", "pick", "seen"]), "v": None if h["k"] == "const" else G.pick_value(r, h), "i": r.randrange(99)}


def gen(r, tier, i):
    h = gen_hp(r)
    ops = []
    for _ in range(r.choice([3, 6, 12])):
        z = r.choice(["vec", "val", "rvs", "nvec", "nvec", "nvec", "nval", "nval", "conv", "copy", "uniform"])
        op = {"op": z}
        if z in ("vec", "val", "rvs"):
            op["size"] = r.choice([None, None, 0, 1, 2, 5, 33, 200])
            op["as"] = r.choice(["state", "state", "int", "gen"])
        elif z in ("nvec", "nval"):
            op = spread(r, h, z)
        elif z == "conv":
            op["items"] = [None if h["k"] == "const" else G.pick_value(r, h) for _ in range(r.choice([1, 4]))]
        elif z == "copy":
            op["how"] = r.choice(["deep", "pickle", "copy"])
        op["old"] = r.random() < 0.15
        op.update(rng=rand.gen(r, 0.35), spoil=r.random() < 0.5, again=r.random() < 0.3)
        ops.append(op)
    h["api"] = r.random() < 0.2
    return {"spec1": h, "ops": ops, "implied": r.random() < 0.15}


# ------------------------------------------------------------------ execution
class Judge:
    def __init__(self, ctx, h, hp):
        self.ctx, self.h, self.hp = ctx, h, hp
        self.vec = {}  # value -> its vector, bit by bit
        self.seen = []  # (vector, value) pairs met so far
        self.tol = 1e-9
        if h["k"] in CONT:
            big = max(abs(h["lo"]), abs(h["hi"]))
            span = math.log(h["hi"] / h["lo"]) if h["log"] else h["hi"] - h["lo"]
            self.tol = 1e-12 * max(1.0, (1 if h["log"] else big) / span)

    def value(self, v, what):
        """v: one value handed out by the library."""
        ctx, h, hp = self.ctx, self.h, self.hp
        v = obs.norm(v)
        if not model.hp_legal(h, v):
            ctx.fail(f"illegal-value:{what}", f"{v!r} for {h}")
        if h.get("weights") and what in ("val", "rvs", "vec"):
            i = next(i for i, c in enumerate(h["vals"]) if model.same(c, v))
            if h["weights"][i] == 0:
                ctx.fail("weight-zero", f"{v!r} for {h}")
        if not bool(ctx.must("legal_value", hp.legal_value, v)):
            ctx.fail(f"legal_value:{what}", f"{v!r} for {h}")
        return v

    def vector(self, x, what):
        """x: one vector handed out by the library; returns its value."""
        ctx, h, hp = self.ctx, self.h, self.hp
        x = float(x)
        if not math.isfinite(x) or not bool(ctx.must("legal_vector", hp.legal_vector, x)):
            ctx.fail(f"illegal-vector:{what}", f"{x!r} for {h}")
        v = self.value(ctx.must("to_value", hp.to_value, x), what)
        self.pair(v, x, what)
        back = float(ctx.must("to_vector", hp.to_vector, v))
        if h["k"] in DISCRETE:
            if back != x:
                ctx.fail(f"vector-differs:{what}", f"{x!r} decodes to {v!r}, which is {back!r}, for {h}")
        elif abs(back - x) > self.tol:
            ctx.fail(f"vector-differs:{what}", f"{x!r} decodes to {v!r}, which is {back!r}, for {h}")
        return v

    def pair(self, v, x, what):
        if self.h["k"] in DISCRETE:
            old = self.vec.setdefault(repr(v), x)
            if old != x:
                self.ctx.fail(f"vectors-differ:{what}", f"{v!r} is both {old!r} and {x!r} for {self.h}")
        if len(self.seen) < 60:
            self.seen.append((x, v))

    def both(self, x, arr, what):
        """Array and single conversions agree."""
        ctx, h, hp = self.ctx, self.h, self.hp
        arr = np.asarray(arr, dtype=np.float64)
        vs = ctx.must("to_value", hp.to_value, arr)
        if len(vs) != len(x):
            ctx.fail("count:to_value", f"{len(vs)} for {len(x)}: {h}")
        for a, b in zip(vs, x):
            if not self.alike(obs.norm(a), b):
                ctx.fail("array-differs:to_value", f"{a!r} in an array, {b!r} alone, for {h}")
        if not len(x):
            return
        if not np.all(ctx.must("legal_vector", hp.legal_vector, arr)):
            ctx.fail("array-differs:legal_vector", f"{arr!r} for {h}")
        if not np.all(ctx.must("legal_value", hp.legal_value, vs)):
            ctx.fail("array-differs:legal_value", f"{vs!r} for {h}")
        back = ctx.must("to_vector", hp.to_vector, vs)
        tol = self.tol if h["k"] in CONT else 0.0
        if len(back) != len(arr) or np.any(np.abs(back - arr) > tol):
            ctx.fail("array-differs:to_vector", f"{arr!r} -> {vs!r} -> {back!r} for {h}")

    def alike(self, a, b):
        return obs.near(a, b) if self.h["k"] in CONT else model.same(a, b)

    # -------------------------------------------------------------- operations
    def call(self, op, fn, **kw):
        name = "random_state" if op["op"] == "rvs" else "seed"
        if op["op"] == "rvs" and op.get("as", "state") != "state":
            seed = op["rng"]["seed"]
            return self.ctx.lib(fn, **kw, random_state=seed if op["as"] == "int" else np.random.default_rng(seed))
        return self.ctx.lib(fn, **{**kw, name: rand.make(op["rng"], self.ctx)})

    def draw(self, op):
        ctx, h, hp, z = self.ctx, self.h, self.hp, op["op"]
        fn = {"vec": hp.sample_vector, "val": hp.sample_value, "rvs": hp.rvs}[z]
        if op.get("old") and z == "val" and op["size"] is None:
            r = ctx.lib(hp.sample, rand.make(op["rng"], ctx))
        else:
            r = self.call(op, fn, size=op["size"])
        if not r.ok:
            ctx.fail(f"exception:{z}:{r.err}", f"{r.exc!r} for {h}")
        x = r.value
        if op["size"] is None:
            if isinstance(x, np.ndarray):
                ctx.fail("count:" + z, f"{x!r} for one of {h}")
            x = [x]
        elif np.ndim(x) != 1 or len(x) != op["size"]:
            ctx.fail("count:" + z, f"{x!r} for {op['size']} of {h}")
        ctx.ev(z, [obs.norm(a) for a in x])
        ctx.probe(z + ":" + h["k"])
        vs = [self.vector(a, z) if z == "vec" else self.value(a, z) for a in x]
        if z == "vec":
            self.both(vs, x, z)
        else:
            for v in vs[:20]:
                self.vector(ctx.must("to_vector", hp.to_vector, v), z)
        return r.value

    def room(self, v):
        """How many values are one step away; None where there are countless."""
        h = self.h
        if h["k"] == "ord":
            i = next(i for i, c in enumerate(h["vals"]) if model.same(c, v))
            return (i > 0) + (i < len(h["vals"]) - 1)
        if h["k"] == "cat":
            return len(h["vals"]) - 1
        if h["k"] == "const":
            return 0
        return h["hi"] - h["lo"] if h["k"] in INTS else None

    def always_gives_up(self, op, x):
        """The number of tries is bounded, so a rare unlucky draw may run out of them."""
        lost = 0
        for seed in range(20):
            o = {**op, "rng": {"seed": seed}}
            lost += not self.call(o, self.hp.neighbors_vectorized, vector=x, n=op["n"], std=op["std"]).ok
        return lost > 5

    def near(self, op):
        ctx, h, hp, z = self.ctx, self.h, self.hp, op["op"]
        if op["at"] == "seen" and self.seen:
            x, v = self.seen[op["i"] % len(self.seen)]
        else:
            v = h["value"] if h["k"] == "const" else op["v"]
            if not model.hp_legal(h, v):
                raise BadPlan
            x = float(ctx.must("to_vector", hp.to_vector, v))
            self.vector(x, "centre")
        if z == "nvec" and op.get("old"):
            r = ctx.lib(hp.get_neighbors, x, rand.make(op["rng"], ctx), op["n"], op["std"])
        elif z == "nvec":
            r = self.call(op, hp.neighbors_vectorized, vector=x, n=op["n"], std=op["std"])
        else:
            r = self.call(op, hp.neighbors_values, value=v, n=op["n"], std=op["std"])
        d = op["rng"]
        plain = not (d.get("p") or d.get("rep") or d.get("burst"))
        room = self.room(v)
        if not r.ok:
            ctx.ev(z, r.err)
            easy = plain and op["n"] <= 4 and (op["std"] is None or op["std"] >= 0.2) and self.always_gives_up(op, x)
            if easy or room is not None and op["n"] >= room or not isinstance(r.exc, ValueError):
                ctx.fail(f"exception:{z}:{r.err}", f"{op['n']} neighbours of {v!r} (std {op['std']}): {r.exc!r} for {h}")
            ctx.probe("none")
            return None
        y = r.value
        if np.ndim(y) != 1:
            ctx.fail("count:" + z, f"{y!r} for {h}")
        want = op["n"] if room is None else min(op["n"], room)
        if len(y) != want:
            ctx.fail("count:" + z, f"{len(y)} of {want} neighbours of {v!r} (asked for {op['n']}): {y!r} for {h}")
        ctx.ev(z, [obs.norm(a) for a in y])
        ctx.probe(z + ":" + h["k"])
        vs = [self.vector(a, z) if z == "nvec" else self.value(a, z) for a in y]
        if z == "nvec":
            self.both(vs, y, z)
        else:
            for a in vs[:20]:
                self.vector(ctx.must("to_vector", hp.to_vector, a), z)
        if h["k"] in DISCRETE:
            if any(model.same(a, v) for a in vs):
                ctx.fail("own-neighbour:" + z, f"{v!r} among {vs} for {h}")
            if len({repr(a) for a in vs}) != len(vs):
                ctx.fail("twice:" + z, f"{vs} of {v!r} for {h}")
        elif plain and op["std"] != 0 and z == "nvec" and len({float(a) for a in y}) != len(y):
            ctx.fail("twice:" + z, f"{vs} of {v!r} for {h}")
        if h["k"] == "ord":
            at = {repr(c): i for i, c in enumerate(h["vals"])}
            if any(abs(at[repr(a)] - at[repr(v)]) != 1 for a in vs):
                ctx.fail("far:" + z, f"{vs} of {v!r} for {h}")
        return y

    def conv(self, op):
        ctx, h, hp = self.ctx, self.h, self.hp
        vs = [h["value"] if h["k"] == "const" else v for v in op["items"]]
        if not all(model.hp_legal(h, v) for v in vs):
            raise BadPlan
        xs = []
        for v in vs:
            self.value(v, "conv")
            x = ctx.must("to_vector", hp.to_vector, v)
            got = self.vector(x, "conv")
            if not self.alike(got, v):
                ctx.fail("value-differs", f"{v!r} -> {x!r} -> {got!r} for {h}")
            xs.append(x)
        self.both([self.vector(x, "conv") for x in xs], xs, "conv")
        return None


def same_result(a, b):
    if a is None or b is None:
        return a is b
    return repr(np.asarray(a).tolist()) == repr(np.asarray(b).tolist())


def run(plan, ctx):
    h = plan["spec1"]
    hp = ctx.must("build", build.hp, h, plan.get("implied", False))
    j = Judge(ctx, h, hp)
    if plan.get("implied"):
        v = j.value(hp.default_value, "val")
        j.vector(ctx.must("to_vector", hp.to_vector, v), "default")
    first = None
    judged = 0
    for op in plan["ops"]:
        if op["op"] == "copy":
            j.hp = {"deep": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "copy": copy.copy}[op["how"]](j.hp)
            continue
        if op["op"] == "uniform":
            if h["k"] in INTS + CONT and h["k"][0] in "nb":
                # the same range without its shape
                flat = {**h, "k": "uint" if h["k"] in INTS else "ufloat"}
                other = ctx.must("to_uniform", j.hp.to_uniform)
                if other != build.hp(flat, plan.get("implied", False)) and not plan.get("implied"):
                    ctx.fail("uniform-differs", f"{other} for {h}")
                k = Judge(ctx, flat, other)
                k.draw({"op": "vec", "size": 5, "rng": op["rng"]})
                k.vector(ctx.must("to_vector", other.to_vector, other.default_value), "default")
            continue
        do = j.conv if op["op"] == "conv" else j.near if op["op"] in ("nvec", "nval") else j.draw
        got = do(op)
        judged += got is not None
        if got is not None and op["op"] in ("nvec", "nval") and op["at"] == "seen":
            continue  # what has been seen differs the next time
        if op["again"] and not same_result(got, do(op)):
            ctx.fail("not-repeatable:" + op["op"], f"{op} for {h}")
        if first is None and got is not None:
            first = (op, do, copy.deepcopy(got))
        if op["spoil"] and isinstance(got, np.ndarray) and got.size and got.flags.writeable:
            if got.dtype.kind in "if":
                got[...] = -7
            else:
                for i in range(len(got)):
                    got[i] = got[0]
            ctx.fired["spoilt"] += 1
    if first and not same_result(first[2], first[1](first[0])):
        ctx.fail("changed-by-use", f"{first[0]} for {h}")
    ctx.nontrivial = judged > 1
