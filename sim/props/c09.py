"""C09: validation accepts exactly the valid configurations."""

from __future__ import annotations

from .. import model
from .c05 import Side, add_op, fault, gen_bad, place, gen_nest, nest_model
from .c07 import BAD, FORMS, bad_value, shaped
from .common import *  # noqa: F403

RUNS = {"quick": 12000, "thorough": 250000}
RULE = (
    "build-up histories (accepted, refused and interrupted additions, nesting) with valid and broken "
    "assignments judged by values and by vector after every step, and configurations kept "
    "from earlier steps judged again; non-trivial: valid and invalid assignments were judged"
)
ASSUMPTIONS = [
    "verdicts that hinge on a continuous value within 1e-9 of a threshold are skipped",
    "a configuration from before an addition is judged again only if the addition left the order of hyperparameters as it was",
]

HOW = ("values", "values", "vector", "cvec", "old")


def match(r, m, f, v):
    """Alter the values so that a clause is likely to match."""
    if f[0] == "and":
        for x in f[1]:
            match(r, m, x, v)
    elif f[0] == "eq":
        v[f[1]] = f[2]
    elif f[0] == "in":
        v[f[1]] = r.choice(f[2])
    else:
        for _ in range(20):
            v[f[1]], v[f[2]] = G.pick_value(r, m.hps[f[1]]), G.pick_value(r, m.hps[f[2]])
            if r.random() < 0.2 and model.hp_legal(m.hps[f[2]], v[f[1]]):
                v[f[2]] = v[f[1]]
            try:
                if m.forb(f, v):
                    break
            except Ambiguous:
                pass


def gen_judge(r, m):
    v = G.gen_config_values(r, m, 20)
    op = {"op": "judge", "how": r.choice(HOW), "form": r.choice(FORMS), "pos": r.random()}
    names = sorted(m.hps)
    z = r.random()
    if z < 0.3:
        pass
    elif z < 0.42 and v:
        del v[r.choice(sorted(v))]
    elif z < 0.54:
        off = [n for n in names if n not in v]
        if off:
            n = r.choice(off)
            v[n] = G.pick_value(r, m.hps[n])
    elif z < 0.64 and v:
        n = r.choice(sorted(v))
        op["bad"] = [n, r.choice(["own", "own", *BAD])]
        v[n] = G.pick_illegal(r, m.hps[n])
    elif z < 0.84 and m.forbs:
        f = r.choice(m.forbs)
        match(r, m, f, v)
        if r.random() < 0.3:
            # just beside the clause
            n = r.choice(model.forb_hps(f))
            v[n] = G.pick_value(r, m.hps[n])
        want = dict(v)
        try:
            v = m.complete(lambda n: want[n] if n in want else G.pick_value(r, m.hps[n]))
        except Ambiguous:
            pass
    elif z < 0.94:
        n = r.choice(names)
        v[n] = G.pick_value(r, m.hps[n])
    elif z < 0.97:
        v = {n: G.pick_value(r, m.hps[n]) for n in names}
    else:
        v["nowhere"] = 1
    op["values"] = v
    return op


def gen(r, tier, i):
    ref = gen_ref(r, deep=0.02)
    ops, m, tag = [], RefSpace(ref.name), 0
    for b in G.gen_build(r, ref):
        hps = [ref.hps[p[1]] for p in b if p[0] == "h"]
        conds = [{"child": p[1], "e": ref.conds[p[1]]} for p in b if p[0] == "c"]
        forbs = [ref.forbs[p[1]] for p in b if p[0] == "f"]
        if m.hps and r.random() < 0.3:
            tag += 1
            if r.random() < 0.7:
                ops.append(gen_bad(r, m, str(tag)))
            else:
                op = gen_nest(r, m, str(tag))
                ops.append(op)
                try:
                    m = nest_model(m, op)[0] or m
                except (Ambiguous, BadPlan):
                    pass
        ops.append(add_op(r, hps, conds, forbs))
        if r.random() < 0.15:
            ops[-1]["fault"] = fault(r)
        m = m.add(hps, conds, forbs)[0] or m
        for _ in range(r.choice([0, 1, 3])):
            ops.append(gen_judge(r, m))
        if r.random() < 0.3:
            ops.append({"op": r.choice(["again", "default"])})
    for _ in range(r.choice([4, 10, 20])):
        ops.append(gen_judge(r, m))
    ops += [{"op": "again"}, {"op": "default"}]
    return {"name": ref.name, "seed": r.randrange(2**31), "ops": ops}


class Run:
    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.side = Side(plan["name"], plan["seed"])
        self.m = RefSpace(plan["name"])
        self.held = []
        self.good = self.bad = 0

    @property
    def s(self):
        return self.side.s

    def add(self, op):
        ctx, m = self.ctx, self.m
        try:
            new, why = nest_model(m, op) if op["op"] == "nest" else m.add(op["hps"], op["conds"], op["forbs"])
            if op.get("junk") is not None:
                new, why = None, "junk"
        except Ambiguous:
            return True
        except KeyError:
            raise BadPlan from None
        fn, args = self.side.call(op)
        names = list(self.s)
        if op.get("fault") and new is not None:
            # Broken off first; what was valid before stays valid.
            r = ctx.lib(fn, *args, fault=place(ctx, self.side, op))
            ctx.ev("broken", r.err, r.fired)
            if not r.ok:
                if r.fired is None:
                    ctx.fail("addition-refused", f"{r.exc!r} {op}")
                ctx.probe("broken-off")
                if m.hps:
                    self.again()
                fn, args = self.side.call(op)
                r = ctx.lib(fn, *args)
        else:
            r = ctx.lib(fn, *args)
        ctx.ev(op["op"], why, r.err)
        if r.ok != (new is not None):
            ctx.fail("addition-accepted" if r.ok else "addition-refused", f"{why} {r.exc!r} {op}")
        if new is None:
            ctx.probe("refused:" + why)
            return True
        self.m = new
        if list(self.s) != names:
            self.held.clear()
        return True

    def verdict(self, values):
        try:
            return self.m.judge(values)
        except Ambiguous:
            return "skip"

    def judge(self, op):
        ctx, m, s = self.ctx, self.m, self.s
        values = dict(op["values"])
        how, bad = op["how"], op.get("bad")
        if any(n not in m.hps for n in values if n != "nowhere"):
            return
        if bad and bad[1] != "own" and how == "values":
            values[bad[0]] = bad_value(bad[1])
        why = self.verdict(values)
        if why == "skip":
            return
        give = {n: v if n not in m.hps else shaped(m.hps[n], v, op["form"]) for n, v in values.items()}
        if how == "values":
            r = ctx.lib(CS.Configuration, s, values=give)
            c = r.value
        else:
            if "nowhere" in values:
                return
            vec = np.full(len(s), np.nan)
            for n, v in values.items():
                h = m.hps[n]
                if not model.hp_legal(h, v):
                    if h["k"] == "const":
                        return
                    size = len(h["vals"]) if "vals" in h else 1
                    vec[s.index_of[n]] = [-1.0, size + 0.5, -0.25, size + 1.0][int(op["pos"] * 4)]
                else:
                    vec[s.index_of[n]] = s[n].to_vector(v)
            before = vec.copy()
            c = CS.Configuration(s, vector=vec)
            fn = {"vector": lambda: s.check_configuration_vector_representation(vec), "cvec": c.check_valid_configuration,
                  "old": lambda: s.check_configuration(c)}[how]
            r = ctx.lib(fn)
            if before.tobytes() != vec.tobytes():
                ctx.fail("altered-input", how)
        ctx.ev("judge", how, why and why[0], r.err)
        if r.ok != (why is None):
            ctx.fail(("accepted:" + why[0]) if r.ok else "refused-valid", f"by {how}: {values}: {r.exc!r}, expected {why}")
        if why is None:
            self.good += 1
            ctx.probe("valid")
            self.active(c, values, why)
            if len(self.held) < 6:
                self.held.append((c, values))
        else:
            self.bad += 1
            ctx.probe("invalid:" + why[0])

    def active(self, c, values, why):
        """Activity as reported for a valid configuration."""
        for x in (c, c.get_array()):
            got = self.ctx.must("active", self.s.get_active_hyperparameters, x)
            if got != set(values):
                self.ctx.fail("active", f"{sorted(got)} instead of {sorted(values)}")
        got = obs.values(c)
        if not obs.same_values(got, values, self.m):
            self.ctx.fail("holds", f"{got} instead of {values}")

    def again(self):
        """Configurations of earlier definitions, judged by the present one."""
        for c, values in self.held:
            why = self.verdict(values)
            if why == "skip":
                continue
            r = self.ctx.lib(c.check_valid_configuration)
            self.ctx.ev("again", why and why[0], r.err)
            if r.ok != (why is None):
                self.ctx.fail("again-" + (("accepted:" + why[0]) if r.ok else "refused-valid"), f"{values}: {r.exc!r}, expected {why}")
            if why is None:
                self.active(c, values, why)
            else:
                self.ctx.probe("outdated")
                self.outdated(c, values)

    def outdated(self, c, values):
        """Activity by the present conditions, where it does not depend on how stale values count."""
        m, raw, act = self.m, set(), {}
        try:
            for n in m.topo():
                e = m.conds.get(n)
                if e is None or m.expr(e, values):
                    raw.add(n)
                if n in values and (e is None or m.expr(e, act)):
                    act[n] = values[n]
        except Ambiguous:
            return
        got = self.ctx.must("active", self.s.get_active_hyperparameters, c)
        for n in values:
            if (n in raw) == (n in act) != (n in got):
                self.ctx.fail("active-outdated", f"{n}: {n in got} for {values}")

    def default(self):
        try:
            want = self.m.default()
        except Ambiguous:
            return
        c = self.ctx.must("default", self.s.get_default_configuration)
        got = obs.values(c)
        if not obs.same_values(got, want, self.m):
            self.ctx.fail("default", f"{got} instead of {want}")
        self.ctx.must("default-check", c.check_valid_configuration)


def run(plan, ctx):
    z = Run(plan, ctx)
    for op in plan["ops"]:
        if op["op"] in ("add", "nest"):
            z.add(op)
        elif z.m.hps:
            if op["op"] == "judge":
                z.judge(op)
            elif op["op"] == "again":
                z.again()
            else:
                z.default()
    ctx.nontrivial = z.good > 0 and z.bad > 0
