"""C14: nesting a space inside another composes both and leaves the source alone."""

from __future__ import annotations

import copy

from .. import model
from ..session import Session, gen_op
from .c05 import Side, add_op, fault, gen_bad, rng
from .common import *  # noqa: F403

RUNS = {"quick": 3000, "thorough": 50000}
RULE = (
    "two to four spaces nested in each other repeatedly and in chains, with rejected and "
    "interrupted nestings, additions and queries on every side in between; each space is "
    "compared with one built flat from the model's composition, each source with what it was; "
    "non-trivial: at least one nesting was accepted"
)
ASSUMPTIONS = [
    "a name that already starts with prefix and delimiter, or equals the prefix, is kept as the library documents in its code",
    "interrupts arrive at calls and function entries inside the library, one per nesting",
]

OPS = ("sample", "sample", "nbr", "rnd", "default", "cfg", "cfg", "check", "active", "hp_sample",
       "hp_nbr", "pdf", "vcheck", "ccheck", "values", "set", "cond_eval", "hp_misc", "reload", "serial", "copy")
MAX = 14


# ------------------------------------------------------------------ generation
def gen(r, tier, i):
    k = r.choice([2, 2, 3, 3, 4])
    boxes = []
    for _ in range(k):
        ref = gen_ref(r, deep=0)
        while len(ref.hps) > 6:
            ref = gen_ref(r, deep=0)
        boxes.append(ref)
    ms = [b.copy() for b in boxes]
    ops = []
    for t in range(r.choice([2, 3, 5, 7])):
        z = r.random()
        d = r.randrange(k)
        if z < 0.6:
            op = gen_nest(r, ms, d, t)
        elif z < 0.75:
            op = dict(gen_grow(r, ms[d], str(t)), d=d)
        elif z < 0.85:
            op = dict(gen_bad(r, ms[d], str(t)), d=d)
        else:
            op = {"op": "use", "d": d, "seed": r.randrange(999), "items_do": [gen_op(r, ms[d], OPS) for _ in range(r.choice([1, 3]))]}
        ops.append(op)
        if op["op"] in ("nest", "add"):
            try:
                ms[d] = composed(ms, op)[0] or ms[d]
            except (Ambiguous, BadPlan, KeyError):
                pass
        if op["op"] == "nest" and r.random() < 0.6:
            for x in sorted({op["d"], op["s"]}):
                ops.append({"op": "use", "d": x, "seed": r.randrange(999), "items_do": [gen_op(r, ms[x], OPS) for _ in range(r.choice([1, 3]))]})
    return {"specs": [b.spec() for b in boxes], "ops": ops, "hold": r.random() < 0.7, "objs": r.random() < 0.5}


def gen_nest(r, ms, d, t):
    s = d if r.random() < 0.05 else r.choice([x for x in range(len(ms)) if x != d])
    sub, m = ms[s], ms[d]
    names = sorted(sub.hps)
    delim = r.choice([":", ":", ":", "__", ".", ""])
    z = r.random()
    prefix = f"s{t}" if z < 0.45 else r.choice(["s", "t", "a"]) if z < 0.7 else r.choice(names) if z < 0.8 else ""
    if z >= 0.8 and z < 0.95:
        prefix = r.choice(names)[: r.choice([1, 2, 2, 3])]  # names that begin like the prefix
    op = {"op": "nest", "d": d, "s": s, "prefix": prefix, "delim": delim, "parent": None}
    own = sorted(m.hps)
    if r.random() < 0.6:
        p = r.choice(own)
        h = m.hps[p]
        if h["k"] not in CONT:
            op["parent"] = {"parent": p, "value": G.pick_illegal(r, h) if r.random() < 0.1 else G.pick_value(r, h), "own": r.random() < 0.8}
    if r.random() < 0.3:
        op["fault"] = fault(r)
    return op


def gen_grow(r, m, tag):
    """More on top of what is there, often on nested names."""
    sw = G.swarm(r)
    names = sorted(m.hps)
    hps, conds, forbs = [], [], []
    for j in range(r.choice([1, 1, 2])):
        h = G.gen_hp(r, f"{r.choice('Akz')}{tag}_{j}", sw)
        hps.append(h)
        p = m.hps[r.choice(names)]
        if r.random() < 0.6:
            conds.append({"child": h["name"], "e": G.fix_atom(G.gen_atom(r, p, sw), p)})
    p = m.hps[r.choice(names)]
    if p["k"] in ("cat", "ord", "uint") and r.random() < 0.6:
        forbs.append(["eq", p["name"], G.pick_value(r, p)])
    free = [n for n in names if n not in m.conds]
    if free and r.random() < 0.4 and hps[0]["k"] != "const":
        # a root of what was nested gets a parent
        conds = [c for c in conds if c["child"] != hps[0]["name"]]
        conds.append({"child": r.choice(free), "e": G.fix_atom(G.gen_atom(r, hps[0], sw), hps[0])})
    return add_op(r, hps, conds, forbs)


def composed(ms, op):
    m = ms[op["d"]]
    if op["op"] == "add":
        if op.get("junk") is not None:
            return None, "junk"
        return m.add(op["hps"], op["conds"], op["forbs"])
    sub, p = ms[op["s"]], op["parent"]
    if p:
        if p["parent"] not in m.hps:
            raise BadPlan
        roots = any(n not in sub.conds for n in sub.hps)
        if roots and not model.hp_legal(m.hps[p["parent"]], p["value"]):
            return None, "illegal"
    if len(m.hps) + len(sub.hps) > MAX:
        raise BadPlan
    return m.add(*model.nest(sub, op["prefix"], op["delim"], p))


# ------------------------------------------------------------------ execution
class Box(Side):
    def __init__(self, ref, hold, objs):
        super().__init__(ref.name, 3)
        self.s.add(*(y for x in (lambda o, c, f: (o.values(), c, f))(*build.parts(ref)) for y in x))
        self.m = ref
        self.held = []
        self.objs = []
        self.hold, self.want_objs = hold, objs
        self.note()

    def note(self):
        """Remember how things look now."""
        self.seen = obs.structure(self.s)
        self.rng = rng(self.s)
        self.held = []
        if self.hold:
            self.held = [(c, obs.key(c), obs.vec(c)) for c in (self.s.get_default_configuration(),)]
        if self.want_objs:
            xs = [*self.s.values(), *self.s.conditions, *self.s.forbidden_clauses]
            self.objs = [(x, str(x), repr(x)) for x in xs]


def unchanged(ctx, b, why, who):
    now = ctx.must("look", obs.structure, b.s)
    if now != b.seen:
        ctx.fail(who + "-changed", f"{why}: {obs.diff(b.seen, now)}")
    if rng(b.s) != b.rng:
        ctx.fail(who + "-random-state", why)
    for c, k, v in b.held:
        if obs.key(c) != k or obs.vec(c) != v:
            ctx.fail(who + "-configuration-changed", f"{why}: {k} became {obs.key(c)}")
        ctx.must("check-held", c.check_valid_configuration)
    for x, s, p in b.objs:
        if str(x) != s or repr(x) != p:
            ctx.fail(who + "-object-changed", f"{why}: {s} became {x}")


def flat(ctx, b, why):
    """The space must be the composition the model says."""
    t = ctx.must("flat", build.space, b.m, 3)
    x, y = obs.structure(b.s), obs.structure(t)
    if x != y:
        ctx.fail("composition-differs", f"{why}: {obs.diff(x, y)}")
    if not ctx.must("eq", b.s.__eq__, t) or not (t == b.s):
        ctx.fail("composition-not-equal", why)
    return t


def nest_call(boxes, op, copies=False):
    d, s = boxes[op["d"]], boxes[op["s"]]
    ds, ss = d.s, s.s
    if copies:
        ss = copy.deepcopy(s.s)
        ds = ss if d is s else copy.deepcopy(d.s)
    p = op["parent"]
    if p:
        h = ds[p["parent"]] if p["own"] else build.hp(d.m.hps[p["parent"]])
        p = {"parent": h, "value": p["value"]}
    return ds.add_configuration_space, (op["prefix"], ss, op["delim"], p), p


def run(plan, ctx):
    boxes = []
    for sp in plan["specs"]:
        m = RefSpace.of(sp)
        if not m.hps or m.topo() is None or not m.default_ok():
            raise BadPlan
        boxes.append(Box(m, plan["hold"], plan["objs"]))
    for op in plan["ops"]:
        d = boxes[op["d"]]
        if op["op"] == "use":
            use(ctx, d, op)
            continue
        try:
            new, why = composed([b.m for b in boxes], op)
        except (Ambiguous, BadPlan):
            continue
        except KeyError:
            raise BadPlan from None
        if op["op"] == "add":
            fn, args = d.call(op)
            r = ctx.lib(fn, *args)
            if r.ok != (new is not None):
                ctx.probe("model-disagrees")  # judged by other checks
                return
        else:
            f = op.get("fault") if new is not None else None
            if f:
                fn, args, _ = nest_call(boxes, op, copies=True)
                f = {"kind": f["kind"], "at": 1 + int(f["frac"] * ctx.count_points(fn, *args))}
            fn, args, p = nest_call(boxes, op)
            given = dict(p) if p else None
            r = ctx.lib(fn, *args, fault=f)
            if p is not None and (set(p) != set(given) or any(p[k] is not given[k] for k in p)):
                ctx.fail("argument-changed", f"{given} became {p}")
            if f and not r.ok:
                if r.fired is None:
                    ctx.fail("refused", f"{r.exc!r} for {op}")
                ctx.probe("interrupted")
                for b in boxes:
                    unchanged(ctx, b, f"{f['kind']} at {r.fired}", "destination" if b is d else "source" if b is boxes[op["s"]] else "bystander")
                fn, args, p = nest_call(boxes, op)
                r = ctx.lib(fn, *args)
            if r.ok and new is None:
                ctx.fail("accepted", f"{op} though {why}")
            if not r.ok and new is not None:
                ctx.fail("refused", f"{r.exc!r} for {op}")
            if r.ok:
                ctx.nontrivial = True
                ctx.probe("nested-with-parent" if p else "nested")
                if op["d"] == op["s"]:
                    ctx.probe("nested-in-itself")
            else:
                ctx.probe("rejected:" + why)
        ctx.ev(op["op"], why, r.err)
        for b in boxes:
            if b is d and r.ok:
                continue
            unchanged(ctx, b, f"{op['op']} into another" if b is not d else f"{why} ({r.err})", "destination" if b is d else "other")
        if r.ok:
            d.m = new
            d.sess.pool.clear()
            flat(ctx, d, op["op"])
            d.note()
    for k, b in enumerate(boxes):
        use(ctx, b, {"seed": 17 + k, "items_do": [{"op": "sample", "n": 3}, {"op": "nbr", "c": 0, "seed": 4, "num": 2, "take": 20, "int": True}]})


def use(ctx, b, op):
    """The same queries on the space and on one built flat."""
    if share(b.m, 40) < 0.03:
        return
    t = flat(ctx, b, "before use")
    b.s.seed(op["seed"])
    t.seed(op["seed"])
    za, zb = Session(b.s), Session(t)
    for o in op["items_do"]:
        if any(o.get(k) not in (None, *b.m.hps) for k in ("h", "k")):
            continue
        x, y = za.outcome_in(ctx, o), zb.outcome_in(ctx, o)
        ctx.ev(o["op"], x)
        if x != y:
            ctx.fail("behaves-differently:" + o["op"], f"{o}: {x[:400]} vs flat {y[:400]}")
    for c in za.pool:
        if getattr(c, "config_space", None) is b.s:
            try:
                why = b.m.judge(obs.values(c))
            except Ambiguous:
                continue
            if why:
                ctx.fail("invalid", f"{obs.values(c)}: {why}")
    b.note()
