"""Seeded generation of space specs, values and build scripts (plain data)."""

from __future__ import annotations

import math
import random

import numpy as np

from . import model
from .model import CONT, INTS, Ambiguous, RefSpace

SEQ = 0.06
NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"]
# Names that a careless key or order would mix up.
ODD_NAMES = [
    ["x", "X", "y", "Y", "aB", "Ab", "ab", "AB", "z", "Z", "q", "Q"],
    ["1", "10", "2", "x1", "x10", "x2", "x 1", "x_1", "01", "x-1", "x.1", "11"],
    ["a", "aa", "aaa", "a_a", "b", "ba", "ab", "é", "e", "ß", "_a", "a_"],
    ["a", "a:a", "b:a", "b", "a:b", "b:b", "a:b:a", "c:a", "c", "x1", "x01", "x001"],
]


def swarm(r: random.Random):
    """Per-run feature switches: each run stresses a different mix."""
    kinds = ["cat", "ord", "const", "ufloat", "uint", "nfloat", "nint", "bfloat", "bint"]
    w = {k: r.choice([0, 1, 1, 3]) for k in kinds}
    w["cat"] = r.choice([1, 2, 4])
    w["uint"] = r.choice([1, 2, 4])
    w["const"] = min(w["const"], 1)
    odd = r.random() < 0.15
    if odd:
        w["cat"] = 4
    return {
        "fine": r.random() < 0.15,  # numbers with as many digits as there are
        "kinds": w,
        "n": r.choice([1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 10]),
        "pcond": r.choice([0.0, 0.3, 0.6, 0.9]),
        "nforb": r.choice([1, 3, 6]) if odd else r.choice([0, 0, 1, 2, 4]),
        "plog": r.choice([0.0, 0.4]),
        "conj": r.choice([0.0, 0.3, 0.7]),
        "share": r.choice([0.0, 0.5, 0.5, 0.9]),
        "same": r.choice([0.4, 0.4, 0.95]),  # of the shared ones, how many word for word
        "kin": r.choice([0.0, 0.25, 0.6]),
        "chain": False,
        "seq": r.random() < SEQ,  # values that are lists
        "odd": odd,  # names and values that look alike
        "long": r.choice([0.0, 0.0, 0.0, 0.4]),  # long lists of values
    }


def chain_swarm(r):
    """Long chains of conditions: every hyperparameter hangs on the one before."""
    sw = swarm(r)
    sw.update(n=r.randint(12, 22), pcond=0.97, chain=True, nforb=r.choice([0, 1]))
    return sw


def rnd_vals(r, n):
    t = r.randrange(5)
    if t == 0:
        return ["v%d" % i for i in range(n)]
    if t == 1:
        lo = r.randint(-3, 5)
        return [lo + 2 * i for i in range(n)]
    if t == 2:
        return [round(0.5 + i * 0.75, 4) for i in range(n)]
    if t == 3:
        return (["red", "green", "blue", "x y", "#1", "", "None", "é"] * 2)[:n] if n <= 8 else ["w%d" % i for i in range(n)]
    if n == 2:
        return [True, False]
    return ["abcdefghijkl"[i] * (1 + i % 3) for i in range(n)]


def alike_vals(r, n):
    """Values that look alike: numbers and how they are spelt, upper and lower case."""
    pool = r.choice([[1, "1", 2, "2", 3, "3", 10, "10"], ["a", "A", "b", "B", "ab", "aB"], [0.5, "0.5", 1, "1", 1.5, "1.5"], [0, "0", "", "None", "False", 2]])
    return r.sample(pool, min(n, len(pool)))


def kin(r, name, h):
    """A close relative of another hyperparameter: same range or values, one detail changed."""
    h = dict(h, name=name)
    k = h["k"]
    if k == "const":
        return h
    if k in ("cat", "ord"):
        z = r.random()
        if z < 0.4:
            h["k"] = "ord" if k == "cat" else "cat"
            h.pop("weights", None)
        elif z < 0.7:
            h["vals"] = h["vals"][::-1]
            h.pop("weights", None)
        h["default"] = r.randrange(len(h["vals"]))
        if h.get("weights") and h["weights"][h["default"]] == 0:
            h.pop("weights")
        return h
    z = r.random()
    if z < 0.5 and h["lo"] > 0:
        h["log"] = not h["log"]
    elif z < 0.75:
        # another distribution over the same range
        fam = "float" if k in CONT else "int"
        for x in ("mu", "sigma", "alpha", "beta"):
            h.pop(x, None)
        h["k"] = r.choice("unb") + fam
        if h["k"][0] == "n":
            h["mu"] = round(h["lo"] + (h["hi"] - h["lo"]) * r.choice([0.1, 0.5, 0.9]), 4)
            h["sigma"] = round((h["hi"] - h["lo"]) * r.choice([0.1, 0.3, 2.0]), 4)
        if h["k"][0] == "b":
            h["alpha"], h["beta"] = r.choice([1, 2, 3.5]), r.choice([1.5, 2, 4])
    elif z < 0.9 and k == "ufloat" and h["hi"] - h["lo"] >= 1 and (h["lo"] >= 1 or not h["log"]):
        h["k"], h["lo"], h["hi"] = "uint", int(math.ceil(h["lo"])), int(h["hi"])
        if h["hi"] <= h["lo"]:
            h["hi"] = h["lo"] + 1
    elif k == "uint":
        h["k"], h["lo"], h["hi"] = "ufloat", float(h["lo"]), float(h["hi"])
    h["default"] = pick_value(r, h)
    return h


# Values that are lists themselves.
LISTS = [[1, 2], [1, 3], [2, 1], ["a"], ["a", "b"], [[1], 2], [1, [2]], [0.5], "a", 7]


def many_vals(r, n, sw):
    if r.random() < sw.get("long", 0):
        n = r.randint(20, 60)
        return r.sample(range(3, 200), n) if r.random() < 0.5 else ["w%d" % i for i in range(n)]
    if sw.get("odd") and n > 1 and r.random() < 0.7:
        return alike_vals(r, n)
    if sw.get("seq") and r.random() < 0.6:
        return r.sample(LISTS, min(n, len(LISTS)))
    return rnd_vals(r, n)


def gen_hp(r, name, sw):
    kinds = [k for k, w in sw["kinds"].items() for _ in range(w)]
    k = r.choice(kinds)
    h = {"k": k, "name": name}
    if k == "cat":
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
        h["vals"] = many_vals(r, n, sw)
        h["default"] = r.randrange(len(h["vals"]))
        if r.random() < 0.3:
            w = [r.choice([0.0, 0.1, 1.0, 2.0, 5.0]) for _ in h["vals"]]
            if h["vals"] and sum(w) > 0:
                if w[h["default"]] == 0:
                    w[h["default"]] = 1.0
                h["weights"] = w
    elif k == "ord":
        n = r.choice([1, 2, 3, 4, 5, 7])
        h["vals"] = many_vals(r, n, sw)
        h["default"] = r.randrange(len(h["vals"]))
    elif k == "const":
        h["value"] = r.choice(["c", 3, 2.5, "x y"])
    elif k in CONT:
        log = r.random() < sw["plog"]
        if log:
            h["lo"], h["hi"] = r.choice([(1e-3, 1.0), (0.5, 8.0), (1.0, 1e4)])
        else:
            h["lo"], h["hi"] = r.choice([(0.0, 1.0), (-2.0, 3.5), (10.0, 10.5), (-5.0, -1.0), (0.0, 1e5)])
        if sw.get("fine"):
            # bounds are kept to thirteen places
            h["lo"], h["hi"] = (float(np.round(h[x] * (1 + r.random() * 1e-3), 13)) for x in ("lo", "hi"))
        h["log"] = log
        h["default"] = pick_value(r, h)
    else:
        log = r.random() < sw["plog"]
        lo = r.choice([1, 1, 2, 5]) if log else r.choice([-3, 0, 0, 1, 10])
        h["lo"], h["hi"] = lo, lo + r.choice([1, 2, 3, 4, 6, 9, 15, 40, 100, 1000])
        h["log"] = log
        h["default"] = pick_value(r, h)
    if k in ("nfloat", "nint"):
        span = h["hi"] - h["lo"]
        h["mu"] = round(h["lo"] + span * r.choice([0.1, 0.5, 0.9]), 4)
        h["sigma"] = round(span * r.choice([0.1, 0.3, 2.0]), 4)
    if k in ("bfloat", "bint"):
        h["alpha"] = r.choice([1, 2, 3.5])
        h["beta"] = r.choice([1.5, 2, 4])
    if sw.get("fine"):
        for x in ("mu", "sigma", "alpha", "beta"):
            if x in h:
                h[x] *= 1 + r.random() * 1e-3
        if h.get("weights"):
            h["weights"] = [w * (1 + r.random()) for w in h["weights"]]
    if k != "const" and r.random() < 0.08:
        h["api"] = True  # made by Float(), Integer() or Categorical()
    return h


def pick_value(r, h):
    """Any legal value; edges are over-represented."""
    k = h["k"]
    if k in ("cat", "ord"):
        return r.choice(h["vals"])
    if k == "const":
        return h["value"]
    if k in INTS:
        z = r.random()
        if z < 0.15:
            return h["lo"]
        if z < 0.3:
            return h["hi"]
        return r.randint(h["lo"], h["hi"])
    z = r.random()
    if z < 0.08:
        return h["lo"]
    if z < 0.16:
        return h["hi"]
    lo, hi = h["lo"], h["hi"]
    if h.get("log"):
        v = math.exp(math.log(lo) + r.random() * (math.log(hi) - math.log(lo)))
        return min(hi, max(lo, float("%.9g" % v)))
    return min(hi, max(lo, round(lo + r.random() * (hi - lo), 7)))


def pick_illegal(r, h):
    k = h["k"]
    if k in ("cat", "ord", "const"):
        return "no-such-value"
    if k in INTS:
        return r.choice([h["lo"] - 1, h["hi"] + 1, h["hi"] + 1000])
    return r.choice([h["lo"] - 1.0, h["hi"] + 1.0])


def gen_atom(r, h, sw):
    k = h["k"]
    if k in CONT:
        lo, hi = h["lo"], h["hi"]
        v = pick_value(r, h)
        while v in (lo, hi):
            v = pick_value(r, h)
        return [r.choice(["<", ">"]), h["name"], v]
    if k == "const":
        return [r.choice(["==", "==", "in"]), h["name"], None]
    if k == "cat":
        ops = ["==", "!=", "in"]
    else:
        ops = ["==", "!=", "in", "<", ">"]
    op = r.choice(ops)
    if op == "in":
        wide = r.random() < 0.5 * (sw.get("long", 0) > 0)
        pool = h["vals"] if k in ("cat", "ord") else sorted({pick_value(r, h) for _ in range(40 if wide else 6)})
        m = r.randint(1, len(pool) if wide else min(r.choice([4, 4, 8]), len(pool)))
        vs = r.sample(list(pool), m)
        return ["in", h["name"], vs]
    return [op, h["name"], pick_value(r, h)]


def fix_atom(e, h):
    if e[2] is None:
        e[2] = [h["value"]] if e[0] == "in" else h["value"]
    return e


def gen_expr(r, hps, pool, sw, depth=0):
    """hps: name->hp, pool: candidate parent names."""
    if depth < 2 and r.random() < sw["conj"]:
        m = r.randint(2, 3)
        # the library wants distinct parents only in OR/AND of same level freely
        parts = []
        for _ in range(m):
            e = gen_expr(r, hps, pool, sw, depth + 1)
            if e not in parts:
                parts.append(e)
        if len(parts) == 1:
            return parts[0]
        return [r.choice(["and", "or"]), parts]
    h = hps[r.choice(pool)]
    return fix_atom(gen_atom(r, h, sw), h)


def gen_forb(r, ref, sw):
    names = sorted(ref.hps)
    disc = [n for n in names if ref.hps[n]["k"] not in CONT and ref.hps[n]["k"] != "const"]
    nums = [n for n in names if numeric(ref.hps[n])]
    z = r.random()

    def relation():
        a, b = r.sample(nums, 2)
        same = [n for n in nums if n != a and ends(ref.hps[n]) == ends(ref.hps[a])]
        if same and r.random() < 0.5:
            b = r.choice(same)
        return [r.choice(["rlt", "rgt", "req"]), a, b]

    if sw.get("twist", 0.5) > r.random():
        near = [f for f in ref.forbs if f[0] == "and"]
        f = twist(r, ref, r.choice(near)) if near else None
        if f is not None:
            return f
    if z < sw.get("rel", 0.25) and len(nums) >= 2:
        return relation()
    if not disc:
        return None

    def atom():
        if len(nums) >= 2 and z > 0.9 and r.random() < 0.4:
            return relation()
        h = ref.hps[r.choice(disc)]
        if r.random() < 0.5:
            return ["eq", h["name"], pick_value(r, h)]
        pool = h["vals"] if "vals" in h else sorted({pick_value(r, h) for _ in range(3)})
        return ["in", h["name"], r.sample(list(pool), r.randint(1, min(2, len(pool))))]

    if z < 0.5:
        return atom()
    parts = []
    for _ in range(r.randint(2, 3)):
        e = atom()
        if e[1] not in [p[1] for p in parts]:
            parts.append(e)
    if len(parts) == 3 and r.random() < 0.3:
        return ["and", [["and", parts[:2]], parts[2]]]
    return parts[0] if len(parts) == 1 else ["and", parts]


def twist(r, ref, f):
    """A clause that differs from another only in a value or two, or in a name."""
    at = [i for i, p in enumerate(f[1]) if p[0] == "eq"]
    if not at:
        return None
    parts = list(f[1])
    if r.random() < 0.35:
        # another hyperparameter, its value in the same place of the list
        i = r.choice(at)
        h = ref.hps[parts[i][1]]
        others = [o for n, o in sorted(ref.hps.items()) if "vals" in o and n not in [p[1] for p in parts]]
        if "vals" in h and others:
            o = r.choice(others)
            k = next(k for k, v in enumerate(h["vals"]) if model.same(v, parts[i][2]))
            if k < len(o["vals"]):
                parts[i] = ["eq", o["name"], o["vals"][k]]
                if r.random() < 0.7:
                    j = r.choice([x for x in at if x != i] or [i])
                    parts[j] = ["eq", parts[j][1], pick_value(r, ref.hps[parts[j][1]])]
                return ["and", parts]
    for i in r.sample(at, r.randint(1, min(2, len(at)))):
        h = ref.hps[parts[i][1]]
        v = pick_value(r, h)
        if "vals" in h and r.random() < 0.5:
            near = [x for x in h["vals"] if look(x) == look(parts[i][2]) and not model.same(x, parts[i][2])]
            v = r.choice(near) if near else v
        parts[i] = ["eq", h["name"], v]
    return ["and", parts]


def look(v):
    return str(v).lower()


def numeric(h):
    if h["k"] in ("cat", "ord"):
        return all(type(v) in (int, float) for v in h["vals"])
    return h["k"] != "const"


def ends(h):
    return (h["vals"][0], h["vals"][-1]) if "vals" in h else (h["lo"], h["hi"])


def acceptance(ref, r, n=60):
    """Rough share of unconstrained draws that no clause forbids."""
    ok = 0
    for _ in range(n):
        try:
            v = ref.complete(lambda m: draw_like(r, ref.hps[m]))
            if not any(ref.forb(f, v) for f in ref.forbs):
                ok += 1
        except Ambiguous:
            ok += 1
    return ok / n


def draw_like(r, h):
    """What the declared distribution would draw."""
    k = h["k"]
    if k == "cat":
        if "weights" in h:
            return r.choices(h["vals"], h["weights"])[0]
        return r.choice(h["vals"])
    if k == "ord":
        return r.choice(h["vals"])
    if k == "const":
        return h["value"]
    lo, hi, log = h["lo"], h["hi"], h.get("log")
    if k in ("uint", "ufloat"):
        if k == "uint" and not log:
            return r.randint(lo, hi)
        a, b = (math.log(lo), math.log(hi)) if log else (lo, hi)
        x = a + (b - a) * r.random()
    else:
        a, b = (math.log(lo), math.log(hi)) if log else (lo, hi)
        if k[0] == "n":
            mu = math.log(h["mu"]) if log else h["mu"]
            # how the library reads a spread on the log scale
            sg = abs(math.log(lo + h["sigma"])) if log else h["sigma"]
            for _ in range(50):
                x = r.gauss(mu, sg)
                if a <= x <= b:
                    break
            else:
                x = a + (b - a) * r.random()
        else:
            x = a + (b - a) * r.betavariate(h["alpha"], h["beta"])
    x = math.exp(x) if log else x
    x = min(hi, max(lo, x))
    return int(round(x)) if k in INTS else x


def sibling(r, e, same=0.4):
    """An expression close to another one: equal, AND/OR swapped, a part."""
    if e[0] not in ("and", "or") or r.random() < same:
        return e
    z = 0.4 + 0.6 * r.random()
    if z < 0.7:
        return ["or" if e[0] == "and" else "and", e[1]]
    if z < 0.85 and len(e[1]) > 2:
        return [e[0], e[1][:-1]]
    return r.choice(e[1])


def gen_space(r, sw=None, name=None, prefix="", min_accept=0.08):
    sw = sw or swarm(r)
    pool = r.choice(ODD_NAMES) if sw.get("odd") else NAMES
    if sw["n"] > len(pool):
        pool = ["p%02d" % i for i in range(sw["n"])]
    names = [prefix + x for x in pool[: sw["n"]]]
    r.shuffle(names)  # dependency order is unrelated to name order
    ref = RefSpace(name)
    for n in names:
        if ref.hps and r.random() < sw["kin"]:
            ref.hps[n] = kin(r, n, ref.hps[r.choice(list(ref.hps))])
        else:
            ref.hps[n] = gen_hp(r, n, sw)
    prev = None
    for i, n in enumerate(names):
        if i == 0 or r.random() >= sw["pcond"]:
            continue
        if sw.get("chain") and i >= 1:
            e = gen_expr(r, ref.hps, names[i - 1 : i], dict(sw, conj=0.0))
        elif prev is not None and r.random() < sw["share"] and all(
            p in names[:i] for p in model.expr_parents(prev)
        ):
            e = sibling(r, prev, sw["same"])
        else:
            pool = names[:i]
            if len(pool) > 3 and r.random() < 0.5:
                pool = pool[-3:]  # encourages chains
            e = gen_expr(r, ref.hps, pool, sw)
        prev = e
        ref.conds[n] = e
    for _ in range(sw["nforb"]):
        f = gen_forb(r, ref, sw)
        if f is None or f in ref.forbs:
            continue
        ref.forbs.append(f)
        try:
            ok = ref.default_ok() and acceptance(ref, r) >= min_accept
        except Ambiguous:
            ok = False
        if not ok:
            ref.forbs.pop()
    return ref


def gen_config_values(r, ref, tries=200):
    """Some valid assignment (values), by rejection; falls back to default."""
    for _ in range(tries):
        try:
            v = ref.complete(lambda n: draw_like(r, ref.hps[n]))
            if ref.judge(v) is None:
                return v
        except Ambiguous:
            continue
    return ref.default()


def pieces(ref):
    return (
        [["h", n] for n in ref.hps]
        + [["c", n] for n in ref.conds]
        + [["f", i] for i in range(len(ref.forbs))]
    )


def needs(ref, p):
    if p[0] == "h":
        return []
    if p[0] == "c":
        return [p[1]] + model.expr_parents(ref.conds[p[1]])
    return model.forb_hps(ref.forbs[p[1]])


def gen_build(r, ref, tries=6):
    """Random accepted build script: list of batches of pieces."""
    for _ in range(tries):
        ps = pieces(ref)
        r.shuffle(ps)
        if r.random() < 0.3:
            ps.sort(key=lambda p: "hcf".index(p[0]))
        out, have, pending = [], set(), []
        cut = r.choice([0.1, 0.3, 0.7])
        batch = []
        late = list(ps)
        while late:
            nxt = []
            for p in late:
                ok = p[0] == "h" or all(n in have for n in needs(ref, p))
                if not ok:
                    nxt.append(p)
                    continue
                batch.append(p)
                if p[0] == "h":
                    have.add(p[1])
                if r.random() < cut:
                    out.append(batch)
                    batch = []
            late = nxt
        if batch:
            out.append(batch)
        if accepted(ref, out):
            return out
    return [pieces(ref)]


def partial(ref, batches):
    """The model after each batch; None from the first rejected one on."""
    m = RefSpace(ref.name)
    out = []
    for b in batches:
        m, why = m.add(
            [ref.hps[p[1]] for p in b if p[0] == "h"],
            [{"child": p[1], "e": ref.conds[p[1]]} for p in b if p[0] == "c"],
            [ref.forbs[p[1]] for p in b if p[0] == "f"],
        )
        if m is None:
            return None
        out.append(m)
    return out


def accepted(ref, batches):
    try:
        return partial(ref, batches) is not None
    except Ambiguous:
        return False
