"""Reference model: the meaning of a configuration space, on plain values.

Nothing here imports ConfigSpace.  A space is plain JSON data ("spec"):

    hp    {"k": kind, "name": str, ...}
          kinds: cat, ord, const, ufloat, uint, nfloat, nint, bfloat, bint
    expr  ["==" | "!=" | "<" | ">", parent, value] | ["in", parent, [values]]
          | ["and", [exprs]] | ["or", [exprs]]
    cond  {"child": name, "e": expr}
    forb  ["eq", hp, value] | ["in", hp, [values]] | ["and", [forbs]]
          | ["rlt" | "req" | "rgt", left, right]
"""

from __future__ import annotations

import math

CONT = ("ufloat", "nfloat", "bfloat")
INTS = ("uint", "nint", "bint")
EPS = 1e-9


class Ambiguous(Exception):
    """The verdict hinges on float rounding; the oracle abstains."""


def expr_parents(e):
    if e[0] in ("and", "or"):
        out = []
        for x in e[1]:
            for p in expr_parents(x):
                if p not in out:
                    out.append(p)
        return out
    return [e[1]]


def forb_hps(f):
    if f[0] == "and":
        out = []
        for x in f[1]:
            for p in forb_hps(x):
                if p not in out:
                    out.append(p)
        return out
    if f[0] in ("rlt", "req", "rgt"):
        return [f[1], f[2]]
    return [f[1]]


def same(a, b):
    """Value equality as a user sees it (numpy scalars compare by value)."""
    try:
        return bool(a == b)
    except Exception:
        return False


def hp_default(h):
    k = h["k"]
    if k == "cat" or k == "ord":
        return h["vals"][h["default"]]
    if k == "const":
        return h["value"]
    return h["default"]


def hp_legal(h, v):
    """Is v one of the values the definition lists?"""
    k = h["k"]
    if k in ("cat", "ord"):
        return any(same(v, c) for c in h["vals"])
    if k == "const":
        return same(v, h["value"])
    if isinstance(v, (str, bytes)) or v is None:
        return False
    try:
        x = float(v)
    except Exception:
        return False
    if math.isnan(x) or math.isinf(x):
        return False
    if k in INTS:
        return x == int(x) and h["lo"] <= x <= h["hi"]
    return h["lo"] <= x <= h["hi"]


class RefSpace:
    """Executable definition of a space."""

    def __init__(self, name=None):
        self.name = name
        self.hps = {}
        self.conds = {}  # child -> expr
        self.forbs = []
        self._topo = None

    @classmethod
    def of(cls, spec):
        r = cls(spec.get("name"))
        for h in spec["hps"]:
            r.hps[h["name"]] = h
        for c in spec["conds"]:
            r.conds[c["child"]] = c["e"]
        r.forbs = list(spec["forbs"])
        return r

    def copy(self):
        r = RefSpace(self.name)
        r.hps = dict(self.hps)
        r.conds = dict(self.conds)
        r.forbs = list(self.forbs)
        return r

    def spec(self):
        return {
            "name": self.name,
            "hps": list(self.hps.values()),
            "conds": [{"child": c, "e": e} for c, e in self.conds.items()],
            "forbs": list(self.forbs),
        }

    # ---------------------------------------------------------------- structure
    def topo(self):
        """Parents before children; None when cyclic."""
        shape = (len(self.hps), len(self.conds))
        if self._topo is None or self._topo[0] != shape:
            self._topo = (shape, self._sort())
        return self._topo[1]

    def _sort(self):
        out, state = [], {}

        def visit(n):
            if state.get(n) == 2:
                return True
            if state.get(n) == 1:
                return False
            state[n] = 1
            for p in expr_parents(self.conds[n]) if n in self.conds else ():
                if not visit(p):
                    return False
            state[n] = 2
            out.append(n)
            return True

        for n in sorted(self.hps):
            if not visit(n):
                return None
        return out

    def depth(self):
        d = {}
        for n in self.topo():
            d[n] = (
                1
                if n not in self.conds
                else 1 + max(d[p] for p in expr_parents(self.conds[n]))
            )
        return d

    def parents(self, n):
        return set(expr_parents(self.conds[n])) if n in self.conds else set()

    def children(self, n):
        return {c for c, e in self.conds.items() if n in expr_parents(e)}

    # ---------------------------------------------------------------- evaluation
    def _atom(self, e, values):
        op, p, ref = e
        if p not in values:
            return False  # an inactive parent activates nothing
        h = self.hps[p]
        v = values[p]
        if op == "in":
            return any(self._eq(h, v, r) for r in ref)
        if op == "==":
            return self._eq(h, v, ref)
        if op == "!=":
            return not self._eq(h, v, ref)
        if h["k"] == "ord":
            a = next(i for i, c in enumerate(h["vals"]) if same(c, v))
            b = next(i for i, c in enumerate(h["vals"]) if same(c, ref))
        else:
            a, b = v, ref
            if h["k"] in CONT and abs(a - b) <= EPS * max(1.0, abs(b)):
                raise Ambiguous
        return bool(a < b) if op == "<" else bool(a > b)

    def _eq(self, h, v, ref):
        if h["k"] in CONT and abs(v - ref) <= EPS * max(1.0, abs(ref)):
            raise Ambiguous
        return same(v, ref)

    def expr(self, e, values):
        if e[0] == "and":
            return all([self.expr(x, values) for x in e[1]])
        if e[0] == "or":
            return any([self.expr(x, values) for x in e[1]])
        return self._atom(e, values)

    def forb(self, f, values):
        t = f[0]
        if t == "and":
            return all([self.forb(x, values) for x in f[1]])
        if t in ("rlt", "req", "rgt"):
            if f[1] not in values or f[2] not in values:
                return False
            a, b = values[f[1]], values[f[2]]
            ha, hb = self.hps[f[1]], self.hps[f[2]]
            if (ha["k"] in CONT or hb["k"] in CONT) and abs(a - b) <= EPS * max(
                1.0, abs(a)
            ):
                raise Ambiguous
            return bool({"rlt": a < b, "req": same(a, b), "rgt": a > b}[t])
        if f[1] not in values:
            return False
        h = self.hps[f[1]]
        if t == "eq":
            return self._eq(h, values[f[1]], f[2])
        return any(self._eq(h, values[f[1]], r) for r in f[2])

    def judge(self, values):
        """None when valid, else (reason, who)."""
        for n, v in values.items():
            if n not in self.hps:
                return ("unknown", n)
            if not hp_legal(self.hps[n], v):
                return ("illegal", n)
        act = {}
        for n in self.topo():
            on = n not in self.conds or self.expr(self.conds[n], act)
            if on and n not in values:
                return ("missing", n)
            if not on and n in values:
                return ("inactive", n)
            if on:
                act[n] = values[n]
        for f in self.forbs:
            if self.forb(f, act):
                return ("forbidden", f)
        return None

    def complete(self, prefer):
        """Walk parents first, taking prefer(name) for each active one."""
        act = {}
        for n in self.topo():
            if n in self.conds and not self.expr(self.conds[n], act):
                continue
            act[n] = prefer(n)
        return act

    def default(self):
        return self.complete(lambda n: hp_default(self.hps[n]))

    def default_ok(self):
        d = self.default()
        return not any(self.forb(f, d) for f in self.forbs)

    def assign(self, values, key, v):
        """config[key] = v.  Returns (new values, None) or (None, reason)."""
        if key not in self.hps:
            return None, ("unknown", key)
        if not hp_legal(self.hps[key], v):
            return None, ("illegal", key)
        if key not in values:
            return None, ("inactive", key)
        want = dict(values)
        want[key] = v
        new = self.complete(lambda n: want.get(n, hp_default(self.hps[n])))
        for f in self.forbs:
            if self.forb(f, new):
                return None, ("forbidden", f)
        return new, None

    # ---------------------------------------------------------------- add()
    def add(self, hps=(), conds=(), forbs=()):
        """Returns (new RefSpace, None) or (None, reason)."""
        r = self.copy()
        for h in hps:
            if h["name"] in r.hps:
                return None, "duplicate"
            r.hps[h["name"]] = h
        for c in conds:
            if c["child"] not in r.hps:
                return None, "nochild"
            if c["child"] in r.conds and r.conds[c["child"]] != c["e"]:
                return None, "ambiguous"
            if any(p not in r.hps for p in expr_parents(c["e"])):
                return None, "noparent"
            r.conds[c["child"]] = c["e"]
            if r.topo() is None:
                return None, "cycle"
        for f in forbs:
            if any(n not in r.hps for n in forb_hps(f)):
                return None, "nohp"
            r.forbs.append(f)
        if not r.default_ok():
            return None, "default"
        return r, None


# -------------------------------------------------------------------- nesting
def rename_expr(e, f):
    if e[0] in ("and", "or"):
        return [e[0], [rename_expr(x, f) for x in e[1]]]
    return [e[0], f(e[1]), e[2]]


def rename_forb(c, f):
    if c[0] == "and":
        return ["and", [rename_forb(x, f) for x in c[1]]]
    if c[0] in ("rlt", "req", "rgt"):
        return [c[0], f(c[1]), f(c[2])]
    return [c[0], f(c[1]), c[2]]


def nested_name(n, prefix, delim):
    if n in ("", prefix):
        return prefix
    return n if n.startswith(prefix + delim) else prefix + delim + n


def nest(sub, prefix, delim=":", parent=None):
    """The pieces (hps, conds, forbs) that nesting sub under a prefix adds."""

    def f(n):
        return nested_name(n, prefix, delim)

    hps = [dict(h, name=f(n)) for n, h in sub.hps.items()]
    conds = [{"child": f(c), "e": rename_expr(e, f)} for c, e in sub.conds.items()]
    if parent is not None:
        conds += [
            {"child": f(n), "e": ["==", parent["parent"], parent["value"]]}
            for n in sub.hps
            if n not in sub.conds
        ]
    return hps, conds, [rename_forb(c, f) for c in sub.forbs]
