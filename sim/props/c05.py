"""C05: a rejected or interrupted addition leaves the space unchanged."""

from __future__ import annotations

import copy
import json

from .. import model
from ..session import Session, gen_op
from .common import *  # noqa: F403

RUNS = {"quick": 3000, "thorough": 50000}
RULE = (
    "histories of accepted, rejected and interrupted additions (direct calls, deprecated "
    "methods, nesting) with queries in between, compared with a twin that saw only the "
    "accepted ones; non-trivial: at least one addition was rejected or interrupted"
)
ASSUMPTIONS = [
    "interrupts arrive at calls and function entries inside the library, one per addition",
    "what the space does with an addition it accepts is judged by other checks",
]

OPS = ("sample", "sample", "nbr", "rnd", "default", "cfg", "cfg", "check", "active", "vcheck",
       "ccheck", "values", "set", "cond_eval", "serial", "reload", "copy", "struct", "eq", "hash")
JUNK = (3, None, 2.5)


# ------------------------------------------------------------------ generation
def fault(r):
    z = r.random()
    return {"kind": r.choice(["interrupt", "alloc"]), "frac": r.random() if z < 0.7 else 0.85 + 0.15 * r.random()}


def add_op(r, hps=(), conds=(), forbs=(), **kw):
    return dict({"op": "add", "hps": list(hps), "conds": list(conds), "forbs": list(forbs),
                 "via": r.choice(build.VIA), "order": r.random() < 0.3, "reuse": r.random() < 0.5}, **kw)


def bad_piece(r, m, tag):
    """A piece the space must refuse: (hps, conds, forbs, loose hps, junk)."""
    sw = G.swarm(r)
    names = sorted(m.hps)
    kinds = ["duplicate", "junk", "noparent", "nochild", "nohp", "second", "cycle", "default", "default", "default-and", "dup-in-batch", "self"]
    r.shuffle(kinds)
    loose = G.gen_hp(r, "loose" + tag, sw)
    for k in kinds:
        n = r.choice(names)
        if k == "duplicate":
            return [G.gen_hp(r, n, sw)] if r.random() < 0.5 else [m.hps[n]], [], [], [], None
        if k == "junk":
            return [], [], [], [], r.randrange(len(JUNK))
        if k == "noparent" and n not in m.conds and loose["k"] not in ("const",):
            e = G.fix_atom(G.gen_atom(r, loose, sw), loose)
            if len(names) > 1 and r.random() < 0.5:
                o = m.hps[r.choice([x for x in names if x != n])]
                if n not in ancestors(m, o["name"]):
                    e2 = G.fix_atom(G.gen_atom(r, o, sw), o)
                    e = [r.choice(["and", "or"]), [e2, e] if r.random() < 0.5 else [e, e2]]
            return [], [{"child": n, "e": e}], [], [loose], None
        if k == "nochild":
            e = G.fix_atom(G.gen_atom(r, m.hps[n], sw), m.hps[n])
            return [], [{"child": loose["name"], "e": e}], [], [loose], None
        if k == "nohp" and loose["k"] not in CONT and loose["k"] != "const":
            f = ["eq", loose["name"], G.pick_value(r, loose)]
            o = m.hps[n]
            if r.random() < 0.5 and o["k"] not in CONT:
                f = ["and", [["eq", n, G.pick_value(r, o)], f]]
            return [], [], [f], [loose], None
        if k == "second" and m.conds:
            c = r.choice(sorted(m.conds))
            ok = [x for x in names if x != c and c not in ancestors(m, x) and x not in model.expr_parents(m.conds[c])]
            if ok:
                o = m.hps[r.choice(ok)]
                return [], [{"child": c, "e": G.fix_atom(G.gen_atom(r, o, sw), o)}], [], [], None
        if k == "cycle" and m.conds:
            c = r.choice(sorted(m.conds))
            up = [a for a in ancestors(m, c) if a not in m.conds]
            if up:
                return [], [{"child": r.choice(sorted(up)), "e": G.fix_atom(G.gen_atom(r, m.hps[c], sw), m.hps[c])}], [], [], None
        if k == "self" and n not in m.conds:
            # cyclic only together: n hangs on a new one that hangs on n
            new = dict(loose, name="y" + tag)
            if new["k"] == "const":
                continue
            return [new], [{"child": new["name"], "e": G.fix_atom(G.gen_atom(r, m.hps[n], sw), m.hps[n])},
                           {"child": n, "e": G.fix_atom(G.gen_atom(r, new, sw), new)}], [], [], None
        if k in ("default", "default-and"):
            d = m.default()
            on = sorted(x for x in d if m.hps[x]["k"] not in CONT)
            if not on:
                continue
            f = ["eq", (x := r.choice(on)), d[x]]
            if k == "default-and" and len(on) > 1:
                f = ["and", [["eq", x, d[x]] for x in r.sample(on, 2)]]
            return [], [], [f], [], None
        if k == "dup-in-batch":
            new = dict(loose, name="y" + tag)
            return [new, dict(new)], [], [], [], None
    return [], [], [], [], 0


def ancestors(m, n):
    out, todo = set(), [n]
    while todo:
        for p in m.parents(todo.pop()):
            if p not in out:
                out.add(p)
                todo.append(p)
    return out


def gen_bad(r, m, tag):
    hps, conds, forbs, loose, junk = bad_piece(r, m, tag)
    if r.random() < 0.6:
        # good pieces around it, which must vanish with it
        sw = G.swarm(r)
        for j in range(r.randint(1, 3)):
            h = G.gen_hp(r, f"{r.choice('Azq')}{tag}_{j}", sw)
            hps = [h] + hps if r.random() < 0.5 else hps + [h]
            p = m.hps[r.choice(sorted(m.hps))]
            if r.random() < 0.6:
                c = {"child": h["name"], "e": G.fix_atom(G.gen_atom(r, p, sw), p)}
                conds = [c] + conds if r.random() < 0.5 else conds + [c]
            if h["k"] in ("cat", "ord", "uint") and r.random() < 0.5:
                f = ["eq", h["name"], G.pick_value(r, h)]
                forbs = [f] + forbs if r.random() < 0.5 else forbs + [f]
    return add_op(r, hps, conds, forbs, loose=loose, junk=junk, at=r.randrange(50))


def gen_nest(r, m, tag):
    sub = gen_ref(r, deep=0)
    while len(sub.hps) > 5:
        sub = gen_ref(r, deep=0)
    op = {"op": "nest", "spec": sub.spec(), "prefix": "s" + tag, "delim": r.choice([":", ":", "__", "."]), "parent": None}
    names = [n for n in sorted(m.hps) if m.hps[n]["k"] in ("cat", "ord", "uint")]
    if names and r.random() < 0.6:
        p = r.choice(names)
        op["parent"] = {"parent": p, "value": G.pick_value(r, m.hps[p])}
    z = r.random()
    if z < 0.3:
        # its first name is taken
        n = sorted(sub.hps)[r.randrange(len(sub.hps))]
        taken = r.choice(sorted(m.hps))
        op["prefix"], op["delim"] = "", ""
        op["spec"] = RefSpace.of(op["spec"]).spec()
        if n != taken and taken not in sub.hps:
            # rename one of the sub-space so that it clashes
            op["clash"] = [n, taken]
    return op


def gen(r, tier, i):
    ref = gen_ref(r, deep=0.02)
    batches = G.gen_build(r, ref)
    ops, m, tag = [], RefSpace(ref.name), 0
    for b in batches:
        hps = [ref.hps[p[1]] for p in b if p[0] == "h"]
        conds = [{"child": p[1], "e": ref.conds[p[1]]} for p in b if p[0] == "c"]
        forbs = [ref.forbs[p[1]] for p in b if p[0] == "f"]
        if m.hps:
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                tag += 1
                ops.append(gen_bad(r, m, str(tag)) if r.random() < 0.8 else gen_nest(r, m, str(tag)))
                if ops[-1]["op"] == "nest":
                    try:
                        m2, _ = nest_model(m, ops[-1])
                        m = m2 or m
                    except (Ambiguous, BadPlan):
                        pass
                if ops[-1]["op"] == "nest" and r.random() < 0.4:
                    ops[-1]["fault"] = fault(r)
        op = add_op(r, hps, conds, forbs)
        if r.random() < 0.35:
            op["fault"] = fault(r)
        ops.append(op)
        m2, _ = m.add(hps, conds, forbs)
        m = m2 or m
        for _ in range(r.choice([0, 1, 2])):
            ops.append({"op": "use", "do": gen_op(r, m, OPS)})
    for _ in range(r.choice([1, 2, 3])):
        tag += 1
        ops.append(gen_bad(r, m, str(tag)))
        ops.append({"op": "use", "do": gen_op(r, m, OPS)})
    return {"name": ref.name, "seed": r.randrange(2**31), "ops": ops}


def clashed(op):
    spec = op["spec"]
    if op.get("clash"):
        a, b = op["clash"]
        names = [h["name"] for h in spec["hps"]]
        if a not in names or b in names:
            raise BadPlan
        f = lambda n: b if n == a else n  # noqa: E731
        spec = {"name": spec.get("name"), "hps": [dict(h, name=f(h["name"])) for h in spec["hps"]],
                "conds": [{"child": f(c["child"]), "e": model.rename_expr(c["e"], f)} for c in spec["conds"]],
                "forbs": [model.rename_forb(c, f) for c in spec["forbs"]]}
    sub = RefSpace.of(spec)
    if not sub.hps or sub.topo() is None or not sub.default_ok():
        raise BadPlan
    return sub


def nest_model(m, op):
    sub = clashed(op)
    if op["parent"] and op["parent"]["parent"] not in m.hps:
        raise BadPlan
    return m.add(*model.nest(sub, op["prefix"], op["delim"], op["parent"]))


# ------------------------------------------------------------------ execution
class Side:
    """One space and the objects its user holds."""

    def __init__(self, name, seed):
        self.s = CS.ConfigurationSpace(name=name, seed=seed)
        self.made = {}
        self.sess = Session(self.s)

    def one(self, kind, piece, objs, reuse, fresh):
        key = kind + json.dumps(piece, sort_keys=True)
        if reuse and key in self.made:
            return self.made[key]
        o = build.hp(piece) if kind == "h" else build.cond(piece, objs) if kind == "c" else build.forb(piece, objs)
        self.made[key] = o
        return o

    def items(self, op, space=None, reuse=None):
        s = space if space is not None else self.s
        reuse = op["reuse"] if reuse is None else reuse
        if space is not None:
            reuse = False
            made, self.made = self.made, {}
        try:
            objs = {n: s[n] for n in s}
            for h in op.get("loose") or ():
                objs.setdefault(h["name"], build.hp(h))
            hs = []
            for h in op["hps"]:
                x = self.one("h", h, objs, reuse, space is not None)
                if any(x is y for y in hs):
                    x = build.hp(h)
                hs.append(x)
                objs.setdefault(h["name"], x)
            try:
                cs = [self.one("c", c, objs, reuse, 0) for c in op["conds"]]
                fs = [self.one("f", f, objs, reuse, 0) for f in op["forbs"]]
            except (KeyError, ValueError, TypeError):
                raise BadPlan from None
            out = fs + cs + hs if op["order"] else hs + cs + fs
            if op.get("junk") is not None:
                out.insert(op.get("at", 0) % (len(out) + 1), JUNK[op["junk"]])
            return out
        finally:
            if space is not None:
                self.made = made

    def call(self, op, space=None, reuse=None):
        """(function, args) of one addition."""
        s = space if space is not None else self.s
        if op["op"] == "nest":
            sub = build.space(clashed(op))
            p = op["parent"] and {"parent": s[op["parent"]["parent"]], "value": op["parent"]["value"]}
            return s.add_configuration_space, (op["prefix"], sub, op["delim"], p)
        items = self.items(op, space, reuse)
        return build.add, (s, items, op["via"])


def run(plan, ctx):
    a, b = Side(plan["name"], plan["seed"]), Side(plan["name"], plan["seed"])
    m = RefSpace(plan["name"])
    for op in plan["ops"]:
        if op["op"] == "use":
            use(ctx, a, b, m, op["do"])
            continue
        try:
            new, why = nest_model(m, op) if op["op"] == "nest" else m.add(op["hps"], op["conds"], op["forbs"])
            if op.get("junk") is not None:
                new, why = None, "junk"
        except Ambiguous:
            continue
        except KeyError:
            raise BadPlan from None
        before = obs.structure(a.s)
        state = rng(a.s)
        if new is None:
            fn, args = a.call(op)
            r = ctx.lib(fn, *args)  # no second fault while it cleans up
            ctx.ev("rejected", why, r.err)
            if r.ok:
                ctx.probe("accepted-anyway")
                return
            ctx.probe("rejected:" + why)
            ctx.nontrivial = True
            unchanged(ctx, a, b, before, state, f"{why} ({r.err})")
            continue
        if op.get("fault"):
            f = place(ctx, a, op)
            fn, args = a.call(op)
            r = ctx.lib(fn, *args, fault=f)
            ctx.ev("interrupted", r.err, r.fired)
            if not r.ok:
                if r.fired is None:
                    ctx.fail("refused", f"{r.exc!r} for {op}")
                ctx.probe("interrupted")
                ctx.nontrivial = True
                unchanged(ctx, a, b, before, state, f"{op['fault']['kind']} at {r.fired}")
                # the same addition again
                fn, args = a.call(op)
                r = ctx.lib(fn, *args)
                if not r.ok:
                    ctx.fail("refused-after-interrupt", f"{r.exc!r} after {f}")
        else:
            fn, args = a.call(op)
            r = ctx.lib(fn, *args)
            if not r.ok:
                # refused what the untouched twin accepts?
                fn, args = b.call(op, reuse=False)
                if ctx.lib(fn, *args).ok:
                    ctx.fail("refused", f"{r.exc!r} for {op}")
                ctx.probe("model-disagrees")
                return
        fn, args = b.call(op)
        rb = ctx.lib(fn, *args)
        if not rb.ok:
            ctx.probe("model-disagrees")
            return
        ctx.ev("accepted", op["op"])
        m = new
        if op["hps"] if op["op"] == "add" else True:
            a.sess.pool.clear()
            b.sess.pool.clear()
        elif op["conds"] or op["forbs"]:
            a.sess.pool.clear()
            b.sess.pool.clear()
        same(ctx, a, b, "after an accepted addition")
    for k in range(2):
        use(ctx, a, b, m, {"op": "sample", "n": 3})


def rng(s):
    st = s.random.get_state()
    return (st[1].tobytes(), st[2])


def place(ctx, a, op):
    f = op.get("fault")
    if not f:
        return None
    c = copy.deepcopy(a.s)
    fn, args = a.call(op, space=c)
    n = ctx.count_points(fn, *args)
    return {"kind": f["kind"], "at": 1 + int(f["frac"] * n)}


def same(ctx, a, b, when):
    x, y = obs.structure(a.s), obs.structure(b.s)
    if x != y:
        ctx.fail("differs-from-twin", f"{when}: {obs.diff(x, y)}")
    if not (a.s == b.s) or not (b.s == a.s):
        ctx.fail("not-equal-to-twin", when)


def unchanged(ctx, a, b, before, state, why):
    after = ctx.must("look", obs.structure, a.s)
    if after != before:
        ctx.fail("changed", f"{why}: {obs.diff(before, after)}")
    if rng(a.s) != state:
        ctx.fail("changed-random-state", why)
    if not ctx.must("eq", a.s.__eq__, b.s) or not (b.s == a.s):
        ctx.fail("not-equal-to-twin", why)


def use(ctx, a, b, m, op):
    if not m.hps or any(op.get(k) not in (None, *m.hps) for k in ("h", "k")):
        return
    if share(m, 40) < 0.03:
        return
    x, y = a.sess.outcome_in(ctx, op), b.sess.outcome_in(ctx, op)
    ctx.ev(op["op"], x)
    if x != y:
        ctx.fail("behaves-differently:" + op["op"], f"{op}: {x[:400]} vs twin {y[:400]}")
