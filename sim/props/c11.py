"""C11: a copied or pickled space or configuration carries on identically."""

from __future__ import annotations

import copy
import pickle

from .. import model
from ..session import gen_op
from .c05 import Side, add_op, gen_bad, gen_nest, nest_model, rng
from .common import *  # noqa: F403

RUNS = {"quick": 2500, "thorough": 40000}
RULE = (
    "histories of additions, sampling, assignments and queries run once without and once with "
    "restarts (deep copies, pickles of several protocols) at random points, while the side "
    "left behind is disturbed; non-trivial: at least one restart and one later sample"
)
ASSUMPTIONS = ["shallow copies of a space share its state by design and are not claimed"]

OPS = ("sample", "sample", "sample", "seed", "nbr", "rnd", "default", "cfg", "set", "set", "set", "vec", "check", "active",
       "values", "hash", "hp_sample", "hp_nbr", "pdf", "serial", "struct", "cond_eval", "vcheck", "ccheck", "reload", "priors")
HOW = ("deepcopy", "pickle2", "pickle", "pickle", "twice", "apart")


def gen(r, tier, i):
    ref = gen_ref(r, deep=0.03)
    ops, m, tag = [], RefSpace(ref.name), 0
    rate = r.choice([0.1, 0.3])

    def more(k):
        for _ in range(k):
            if r.random() < rate:
                ops.append({"op": "restart", "how": r.choice(HOW), "on": r.choice(["copy", "copy", "original"]),
                            "items_disturb": disturb(r, m)})
            else:
                ops.append({"op": "use", "do": gen_op(r, m, OPS)})

    for b in G.gen_build(r, ref):
        if m.hps and r.random() < 0.2:
            tag += 1
            ops.append(gen_bad(r, m, str(tag)))
        elif m.hps and r.random() < 0.1:
            tag += 1
            op = gen_nest(r, m, str(tag))
            ops.append(op)
            try:
                m = nest_model(m, op)[0] or m
            except (Ambiguous, BadPlan):
                pass
        hps = [ref.hps[p[1]] for p in b if p[0] == "h"]
        conds = [{"child": p[1], "e": ref.conds[p[1]]} for p in b if p[0] == "c"]
        forbs = [ref.forbs[p[1]] for p in b if p[0] == "f"]
        ops.append(add_op(r, hps, conds, forbs))
        m = m.add(hps, conds, forbs)[0] or m
        more(r.choice([0, 1, 3]))
    more(r.choice([5, 10, 20]))
    ops.append({"op": "restart", "how": r.choice(HOW), "on": r.choice(["copy", "original"]), "items_disturb": disturb(r, m)})
    more(r.choice([0, 2, 5]))
    ops.append({"op": "use", "do": {"op": "sample", "n": 3}})
    return {"name": ref.name, "seed": r.randrange(2**31), "ops": ops}


def disturb(r, m):
    """What happens to the side that is left behind, right away and later."""
    out = [gen_op(r, m, ("sample", "seed", "set", "set", "nbr", "values", "pdf", "hp_sample")) for _ in range(r.choice([1, 3, 6]))]
    sw = G.swarm(r)
    for j in range(r.choice([0, 1, 2])):
        h = G.gen_hp(r, r.choice(["A", "dd", "zz"]) + str(r.randrange(99)), sw)
        p = m.hps[r.choice(sorted(m.hps))]
        c = [{"child": h["name"], "e": G.fix_atom(G.gen_atom(r, p, sw), p)}] if r.random() < 0.6 else []
        f = [["eq", p["name"], G.pick_value(r, p)]] if p["k"] in ("cat", "ord", "uint") and r.random() < 0.6 else []
        out.append(add_op(r, [h], c, f))
    r.shuffle(out)
    return out


def copied(how, thing):
    if how == "deepcopy":
        return copy.deepcopy(thing)
    if how == "twice":
        return pickle.loads(pickle.dumps(copy.deepcopy(thing)))
    return pickle.loads(pickle.dumps(thing, protocol=2 if how == "pickle2" else pickle.HIGHEST_PROTOCOL))


def restart(ctx, side, op):
    """Returns the side that carries on and the one left behind."""
    how = op["how"]
    if how == "apart":
        s, pool = ctx.must("copy", copied, "pickle", side.s), [ctx.must("copy", copied, "deepcopy" if k % 2 else "pickle", c) for k, c in enumerate(side.sess.pool)]
    else:
        s, pool = ctx.must("copy", copied, how, (side.s, side.sess.pool))
    other = Side(None, 0)
    other.s = other.sess.s = s
    other.sess.pool = pool
    other.sess._t = getattr(side.sess, "_t", 0)
    if not ctx.must("eq", side.s.__eq__, s):
        ctx.fail("copy-not-equal", how)
    a, b = obs.structure(side.s), obs.structure(s)
    if a != b:
        ctx.fail("copy-differs", f"{how}: {obs.diff(a, b)}")
    if rng(side.s) != rng(s):
        ctx.fail("copy-random-state", how)
    for k, (x, y) in enumerate(zip(side.sess.pool, pool)):
        if k == 0 and not ctx.must("eq", x.__eq__, y):
            ctx.fail("configuration-copy-not-equal", f"{how}: {dict(x)} {dict(y)}")
        if hash(x) != hash(y) or obs.vec(x) != obs.vec(y) or obs.key(x) != obs.key(y):
            ctx.fail("configuration-copy-differs", f"{how}: {dict(x)} {dict(y)}")
        if x.origin != y.origin or x.config_id != y.config_id:
            ctx.fail("configuration-copy-differs", f"{how}: origin or id")
    return (other, side) if op["on"] == "copy" else (side, other)


def run(plan, ctx):
    a, b = Side(plan["name"], plan["seed"]), Side(plan["name"], plan["seed"])
    m = RefSpace(plan["name"])
    left = []  # what was left behind, with what it looked like last
    restarted = sampled = False
    for op in plan["ops"]:
        if op["op"] == "restart":
            b, old = restart(ctx, b, op)
            ctx.ev("restart", op["how"], op["on"])
            ctx.fired["restart"] += 1
            ctx.planned["restart"] += 1
            restarted = True
            spoil(ctx, old, m, op["items_disturb"])
            left.append((old, look(old)))
            continue
        if op["op"] == "use":
            if usable(m, op["do"]):
                x, y = a.sess.outcome_in(ctx, op["do"]), b.sess.outcome_in(ctx, op["do"])
                ctx.ev(op["do"]["op"], x)
                sampled |= restarted and op["do"]["op"] == "sample"
                if x != y:
                    ctx.fail("behaves-differently:" + op["do"]["op"], f"{op['do']}: {y[:400]} instead of {x[:400]}")
            continue
        try:
            new, why = nest_model(m, op) if op["op"] == "nest" else m.add(op["hps"], op["conds"], op["forbs"])
            if op.get("junk") is not None:
                new = None
        except Ambiguous:
            continue
        except KeyError:
            raise BadPlan from None
        out = []
        for side in (a, b):
            fn, args = side.call(op)
            out.append(ctx.lib(fn, *args).err)
        ctx.ev(op["op"], out)
        if out[0] != out[1]:
            ctx.fail("addition-differs", f"{out[1]} instead of {out[0]}: {op}")
        if (out[0] is None) != (new is not None):
            return  # judged by another check
        if new is not None:
            m = new
            a.sess.pool.clear()
            b.sess.pool.clear()
    for old, seen in left:
        now = look(old)
        if now != seen:
            ctx.fail("left-behind-changed", obs.diff(dict(enumerate(seen)), dict(enumerate(now))))
    x, y = obs.structure(a.s), obs.structure(b.s)
    if x != y or not (a.s == b.s) or not (b.s == a.s) or rng(a.s) != rng(b.s):
        ctx.fail("ends-differently", obs.diff(x, y))
    ctx.nontrivial = restarted and sampled


def usable(m, op):
    return m.hps and not any(op.get(k) not in (None, *m.hps) for k in ("h", "k")) and share(m, 40) >= 0.03


def look(side):
    return [obs.canon(obs.structure(side.s)), str(rng(side.s)), *[obs.key(c) + str(obs.vec(c)) for c in side.sess.pool]]


def spoil(ctx, side, m, ops):
    for op in ops:
        if op["op"] == "add":
            try:
                new, _ = m.add(op["hps"], op["conds"], op["forbs"])
            except (Ambiguous, KeyError):
                continue
            if new is None:
                continue
            fn, args = side.call(op)
            if ctx.lib(fn, *args).ok:
                m = new
                side.sess.pool.clear()
        elif usable(m, op):
            side.sess.outcome_in(ctx, op)
