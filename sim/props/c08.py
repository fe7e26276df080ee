"""C08: a configuration's values and vector always describe the same thing."""

from __future__ import annotations

import copy
import pickle

from .c05 import fault
from .c07 import gen_spec_of, shaped, FORMS, BAD, bad_value
from .common import *  # noqa: F403

from ConfigSpace import util as U

RUNS = {"quick": 8000, "thorough": 150000}
RULE = (
    "histories of partial reads in many forms, assignments, refused assignments, copies and "
    "rebuilds on configurations from every source, some of them first broken off by an injected "
    "KeyboardInterrupt or MemoryError; every read is compared with the model and "
    "with earlier reads; non-trivial: something was read before and after an assignment"
)
ASSUMPTIONS = [
    "floating-point values may change in their last digits when decoded from a vector",
    "assignments the model cannot judge are skipped",
    "an assignment that was broken off may have happened or not, but nothing in between",
]

READS = ("index", "index", "get", "in", "iter", "dict", "items", "keys", "vals", "str", "vec", "hash", "eq", "old")


def gen(r, tier, i):
    ref = gen_ref(r, deep=0.03)
    names = sorted(ref.hps)
    ops = []
    for _ in range(r.choice([6, 15, 40])):
        z, c, k = r.random(), r.randrange(10), r.choice(names)
        if z < 0.5:
            ops.append({"op": "read", "how": r.choice(READS), "c": c, "k": k})
        elif z < 0.68:
            ops.append({"op": "set", "c": c, "k": k, "v": G.pick_value(r, ref.hps[k]), "form": r.choice(FORMS)})
        elif z < 0.74:
            op = {"op": "set", "c": c, "k": k, "v": G.pick_illegal(r, ref.hps[k]), "form": "plain"}
            if r.random() < 0.5:
                op["bad"] = r.choice(BAD)
            ops.append(op)
        elif z < 0.86:
            ops.append({"op": r.choice(["copy", "deepcopy", "pickle", "rebuild", "revector", "nbr"]), "c": c, "seed": r.randrange(2**31)})
        elif z < 0.93:
            ops.append({"op": "new", "src": r.choice(["sample", "default", "values", "list"]), "values": G.gen_config_values(r, ref, 20)})
        else:
            ops.append({"op": "all", "c": c})
        if r.random() < 0.12:
            ops[-1]["fault"] = fault(r)
    return {**gen_spec_of(r, ref), "seed": r.randrange(2**31), "start": G.gen_config_values(r, ref), "ops": ops}


class One:
    def __init__(self, c, want):
        self.c = c
        self.want = want  # what it holds, up to rounding
        self.seen = {}  # what was read since the last change, exactly
        self.read_since = False

    def fork(self, c):
        o = One(c, dict(self.want))
        o.seen = dict(self.seen)
        return o


class Run:
    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.ref, self.s = make_space(plan, seed=plan["seed"], ctx=ctx)
        self.pool = []
        self.cheap = share(self.ref) >= 0.02

    def keep(self, o):
        if len(self.pool) >= 6:
            self.pool.pop(0)
        self.pool.append(o)

    # ---------------------------------------------------------------- judging
    def value(self, o, k, got, how):
        """One value read from configuration o; got is None when absent."""
        w = o.want.get(k)
        if (w is None) != (got is None):
            self.ctx.fail(f"presence:{how}", f"{k}: {got!r} instead of {w!r}")
        if w is None:
            return
        got = obs.norm(got)
        ok = obs.near(got, w) if self.ref.hps[k]["k"] in CONT else got == w
        if not ok:
            self.ctx.fail(f"value:{how}", f"{k}: {got!r} instead of {w!r}")
        mark = repr(got)
        if o.seen.setdefault(k, mark) != mark:
            self.ctx.fail(f"reads-differently:{how}", f"{k}: {mark} after {o.seen[k]}")

    def whole(self, o, d, how):
        if set(d) != set(o.want):
            self.ctx.fail(f"presence:{how}", f"{sorted(d)} instead of {sorted(o.want)}")
        for k in d:
            self.value(o, k, d[k], how)

    def read(self, o, how, k):
        c, ctx = o.c, self.ctx
        if how == "index":
            r = ctx.lib(c.__getitem__, k)
            if not r.ok and r.err != "KeyError" and not isinstance(r.exc, KeyError):
                ctx.fail("exception:index", repr(r.exc))
            self.value(o, k, r.value if r.ok else None, how)
        elif how == "get":
            self.value(o, k, ctx.must("get", c.get, k), how)
            if ctx.must("get", c.get, "nowhere", 7) != 7:
                ctx.fail("presence:get", "unknown name")
        elif how == "in":
            if ctx.must("in", c.__contains__, k) != (k in o.want) or "nowhere" in c:
                ctx.fail("presence:in", k)
        elif how in ("iter", "keys"):
            ks = ctx.must(how, list, c if how == "iter" else c.keys())
            if sorted(ks) != sorted(o.want) or ks != [n for n in self.s if n in o.want]:
                ctx.fail("presence:" + how, f"{ks} instead of {sorted(o.want)}")
        elif how in ("dict", "items", "old"):
            f = {"dict": lambda: dict(c), "items": lambda: dict(c.items()), "old": c.get_dictionary}[how]
            self.whole(o, ctx.must(how, f), how)
        elif how == "vals":
            vs = ctx.must(how, lambda: [c[k2] for k2 in c])
            if len(vs) != len(o.want):
                ctx.fail("presence:vals", str(vs))
            self.whole(o, dict(zip(c.keys(), vs)), how)
        elif how == "str":
            t = ctx.must("str", str, c)
            got = [ln.split("'")[1] for ln in t.splitlines()[1:-1] if ln.startswith("  '")]
            if sorted(got) != sorted(o.want):
                ctx.fail("presence:str", t)
        elif how == "vec":
            self.vector(o)
        elif how == "hash":
            if ctx.must("hash", hash, c) != hash(c):
                ctx.fail("hash", "not stable")
        elif how == "eq":
            for p in self.pool:
                same = ctx.must("eq", c.__eq__, p.c)
                if same != (p.c == c):
                    ctx.fail("eq", "not symmetric")
                if same != (dict(c) == dict(p.c)):
                    ctx.fail("eq", f"{same} for {dict(c)} and {dict(p.c)}")
                if same and hash(c) != hash(p.c):
                    ctx.fail("hash", f"equal but hashed differently: {c} {p.c}")

    def vector(self, o):
        """The vector, decoded hyperparameter by hyperparameter."""
        v = o.c.get_array()
        if len(v) != len(self.s):
            self.ctx.fail("vector", "length")
        for n, i in self.s.index_of.items():
            x = v[i]
            if (x != x) != (n not in o.want):
                self.ctx.fail("presence:vec", f"{n}: {x} but {o.want.get(n)!r}")
            if x == x:
                h = self.ref.hps[n]
                got = obs.norm(self.s[n].to_value(x))
                w = o.want[n]
                if not (obs.near(got, w) if h["k"] in CONT else got == w):
                    self.ctx.fail("value:vec", f"{n}: {got!r} instead of {w!r}")

    # ---------------------------------------------------------------- faults
    def broken(self, o, f, fn):
        """Run fn on the configuration and break it off; the result if it got through."""
        n = self.ctx.count_points(fn, copy.deepcopy(o.c))
        r = self.ctx.lib(fn, o.c, fault={"kind": f["kind"], "at": 1 + int(f["frac"] * n)})
        self.ctx.ev("broken", r.err, r.fired)
        if r.fired is not None and not r.ok:
            self.ctx.probe("broken-off")
        return r

    def disturb(self, o, op):
        """What the operation is about to do, broken off once before it is done."""
        kind, how, k = op["op"], op.get("how"), op.get("k")
        do = {"index": lambda c: c[k], "get": lambda c: c.get(k), "in": lambda c: k in c, "iter": list,
              "keys": lambda c: list(c.keys()), "dict": dict, "items": lambda c: dict(c.items()),
              "vals": lambda c: list(c.values()), "str": str, "vec": lambda c: c.get_array(), "hash": hash,
              "eq": lambda c: c == self.pool[0].c, "old": lambda c: c.get_dictionary(), "copy": copy.copy,
              "deepcopy": copy.deepcopy, "pickle": pickle.dumps, "rebuild": lambda c: CS.Configuration(self.s, values=dict(c)),
              "revector": lambda c: dict(CS.Configuration(self.s, vector=np.array(c.get_array()))),
              "nbr": lambda c: next(U.get_one_exchange_neighbourhood(c, seed=op["seed"]), None),
              "all": lambda c: (dict(c), str(c), hash(c))}[how or kind]
        r = self.broken(o, op["fault"], do)
        if not r.ok and r.fired is None and kind not in ("nbr", "read"):
            self.ctx.fail("exception:" + kind, repr(r.exc))

    # ---------------------------------------------------------------- operations
    def do(self, op):
        ctx, kind = self.ctx, op["op"]
        if kind == "new":
            return self.new(op)
        o = self.pool[op["c"] % len(self.pool)]
        ctx.ev(kind, op.get("how"), op.get("k"))
        if kind == "read" and op["k"] not in self.ref.hps:
            raise BadPlan
        if op.get("fault") and kind != "set":
            self.disturb(o, op)
        if kind == "read":
            self.read(o, op["how"], op["k"])
            o.read_since = True
        elif kind == "all":
            self.all(o)
        elif kind == "set":
            self.set(o, op)
        elif kind in ("copy", "deepcopy", "pickle"):
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda c: pickle.loads(pickle.dumps(c))}[kind]
            c = ctx.must(kind, f, o.c)
            self.keep(o.fork(c))
        elif kind == "rebuild":
            d = dict(o.c)
            c = ctx.must(kind, CS.Configuration, self.s, values=d)
            if not (c == o.c and o.c == c) or hash(c) != hash(o.c):
                ctx.fail("rebuilt-values", f"{dict(c)} from {d}")
            n = o.fork(c)
            n.seen = {k: repr(obs.norm(v)) for k, v in d.items()}
            self.keep(n)
        elif kind == "revector":
            c = ctx.must(kind, CS.Configuration, self.s, vector=np.array(o.c.get_array()))
            if obs.vec(c) != obs.vec(o.c):
                ctx.fail("rebuilt-vector", "vector differs")
            small = all(self.ref.hps[k]["k"] not in CONT or abs(v) <= 10 for k, v in o.want.items())
            if small and (not (c == o.c and o.c == c) or hash(c) != hash(o.c)):
                ctx.fail("rebuilt-vector", f"{dict(c)} from {dict(o.c)}")
            self.keep(One(c, dict(o.want)))
        elif kind == "nbr":
            r = ctx.lib(lambda: next(U.get_one_exchange_neighbourhood(o.c, seed=op["seed"]), None))
            if r.ok and r.value is not None:
                c = r.value
                self.keep(One(c, obs.values(CS.Configuration(self.s, vector=np.array(c.get_array())))))

    def new(self, op):
        ctx, s = self.ctx, self.s
        if op["src"] in ("sample", "list") and self.cheap:
            got = ctx.must("sample", s.sample_configuration, 3 if op["src"] == "list" else None)
            for c in got if isinstance(got, list) else [got]:
                want = obs.values(CS.Configuration(s, vector=np.array(c.get_array())))
                self.keep(One(c, want))
        elif op["src"] == "default":
            self.keep(One(ctx.must("default", s.get_default_configuration), self.ref.default()))
        elif op["src"] == "values":
            try:
                if self.ref.judge(op["values"]) is None:
                    self.keep(One(ctx.must("config", CS.Configuration, s, values=op["values"]), op["values"]))
            except Ambiguous:
                pass

    def set(self, o, op):
        k, ctx = op["k"], self.ctx
        if k not in self.ref.hps:
            raise BadPlan
        v = bad_value(op["bad"]) if op.get("bad") else op["v"]
        try:
            new, why = self.ref.assign(o.want, k, v)
        except Ambiguous:
            return
        x = v if op.get("bad") else shaped(self.ref.hps[k], v, op["form"])
        if op.get("fault") and new is not None:
            r = self.broken(o, op["fault"], lambda c: c.__setitem__(k, x))
            if not r.ok:
                if r.fired is None:
                    ctx.fail("assignment", f"{k}={x!r} on {o.want}: {r.exc!r}")
                got = obs.values(CS.Configuration(self.s, vector=np.array(o.c.get_array())))
                if obs.same_values(got, new, self.ref):
                    o.want = new
                elif not obs.same_values(got, o.want, self.ref):
                    ctx.fail("half-assigned", f"{k}={x!r} on {o.want} broken off at {r.fired}: {got}")
                o.seen = {}
                return self.all(o)
        else:
            r = ctx.lib(o.c.__setitem__, k, x)
        if r.ok != (new is not None):
            ctx.fail("assignment", f"{k}={x!r} on {o.want}: {r.exc!r}, expected {why}")
        if new is not None:
            if o.read_since:
                ctx.nontrivial = True
                ctx.probe("set-after-read")
            o.want = new
            o.seen = {}

    def all(self, o):
        d = dict(self.ctx.must("dict", dict, o.c))
        self.whole(o, d, "dict")
        self.whole(o, dict(o.c.items()), "items")
        self.vector(o)
        for n in self.ref.hps:
            self.read(o, "get", n)
            self.read(o, "in", n)
        self.read(o, "iter", None)
        self.read(o, "eq", None)


def run(plan, ctx):
    z = Run(plan, ctx)
    try:
        if z.ref.judge(plan["start"]) is not None:
            raise BadPlan
    except Ambiguous:
        raise BadPlan from None
    z.keep(One(ctx.must("config", CS.Configuration, z.s, values=plan["start"]), plan["start"]))
    for op in plan["ops"]:
        z.do(op)
    for o in z.pool:
        z.all(o)
    ctx.ev([obs.key(o.c) for o in z.pool])
