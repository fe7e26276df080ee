"""Operations a user performs on one space, as plain data, with plain results.

The same list of operations can be run alone, interleaved with others, after a
restart or around faults; the results are strings that must then be the same.
"""

from __future__ import annotations

import copy
import io
import json
import pickle

from . import build, gen as G, model, obs
from .core import BadPlan
from .model import CONT, INTS

import ConfigSpace as CS
import numpy as np
from ConfigSpace import util as U

READ = (
    "sample", "default", "cfg", "vec", "nbr", "rnd", "check", "active", "hp_sample",
    "hp_nbr", "pdf", "repr", "serial", "reload", "eq", "hash", "struct", "priors",
    "values", "vcheck", "hp_misc", "copy", "impute", "ccheck", "cond_eval", "deact",
)


def gen_value(r, ref, n):
    h = ref.hps[n]
    return G.pick_value(r, h)


def gen_op(r, ref, kinds):
    k = r.choice(kinds)
    names = sorted(ref.hps)
    h = r.choice(names)
    sd = r.randrange(2**31)
    c = r.randrange(1000)
    if k == "sample":
        return {"op": k, "n": r.choice([1, 1, 2, 3, 8])}
    if k == "seed":
        return {"op": k, "v": r.randrange(1000)}
    if k == "cfg":
        v = G.gen_config_values(r, ref, tries=20)
        z = r.random()
        if z < 0.3 and v:
            n = r.choice(sorted(v))
            v[n] = G.pick_illegal(r, ref.hps[n]) if r.random() < 0.5 else gen_value(r, ref, n)
        elif z < 0.4 and v:
            del v[r.choice(sorted(v))]
        return {"op": k, "values": v}
    if k == "set":
        v = gen_value(r, ref, h) if r.random() < 0.85 else G.pick_illegal(r, ref.hps[h])
        return {"op": k, "c": c, "k": h, "v": v}
    if k == "nbr":
        return {"op": k, "c": c, "seed": sd, "num": r.choice([1, 2, 4]), "take": r.choice([1, 3, 50]), "int": r.random() < 0.5}
    if k == "rnd":
        return {"op": k, "c": c, "seed": sd}
    if k in ("hp_sample", "hp_nbr", "pdf", "hp_misc"):
        op = {"op": k, "h": h, "n": r.choice([1, 2, 5, 5, 20]), "seed": sd, "v": gen_value(r, ref, h)}
        wide = [n for n in names if ref.hps[n]["k"] in INTS and ref.hps[n]["hi"] - ref.hps[n]["lo"] >= 15]
        if k == "hp_nbr" and wide and r.random() < 0.5:
            op["h"] = r.choice(wide)
            op["v"] = gen_value(r, ref, op["h"])
        if k == "hp_nbr" and r.random() < 0.7:
            op["std"] = r.choice([0.002, 0.002, 0.01, 0.2, 0.6])
        return op
    if k == "cond_eval":
        return {"op": k, "c": c}
    if k in ("vec", "check", "active", "hash", "values", "vcheck", "impute", "ccheck", "deact"):
        return {"op": k, "c": c}
    return {"op": k}


class Session:
    """One user of one space. `pool` holds the configurations at hand."""

    def __init__(self, space, pool=None, max_pool=6, tag=""):
        self.s = space
        self.pool = pool if pool is not None else []
        self.max = max_pool
        self.tag = tag
        self.twin = None  # an independently built equal space, for comparisons
        self.between = None  # called between two neighbours of a neighbourhood

    def keep(self, c):
        if len(self.pool) < self.max:
            self.pool.append(c)
        else:
            self.pool[self.turn() % self.max] = c

    def turn(self):
        self._t = getattr(self, "_t", 0) + 1
        return self._t

    def cfg(self, op):
        if not self.pool:
            self.pool.append(self.s.get_default_configuration())
        return self.pool[op["c"] % len(self.pool)]

    # -------------------------------------------------------------- execution
    def do(self, op):
        """Result of one operation as a string; library errors are results."""
        return getattr(self, "_" + op["op"])(op)

    def outcome(self, op):
        try:
            return "ok " + self.do(op)
        except (BadPlan, MemoryError):
            raise
        except Exception as e:
            return "err " + type(e).__name__

    def outcome_in(self, ctx, op):
        """As outcome, inside a run: counted, with a step budget."""
        r = ctx.lib(self.do, op)
        if r.ok:
            return "ok " + r.value
        return "err " + r.err

    def _sample(self, op):
        n = op["n"]
        got = self.s.sample_configuration(None if n == 1 else n)
        cs = got if isinstance(got, list) else [got]
        for c in cs[:2]:
            self.keep(c)
        return ";".join(obs.key(c) + str(obs.vec(c)) for c in cs)

    def _seed(self, op):
        self.s.seed(op["v"])
        return "seeded"

    def _default(self, op):
        c = self.s.get_default_configuration()
        self.keep(c)
        return obs.key(c)

    def _cfg(self, op):
        c = CS.Configuration(self.s, values=dict(op["values"]))
        self.keep(c)
        return obs.key(c)

    def _vec(self, op):
        c = CS.Configuration(self.s, vector=np.array(self.cfg(op).get_array()))
        self.keep(c)
        return obs.key(c)

    def _set(self, op):
        c = self.cfg(op)
        try:
            c[op["k"]] = op["v"]
        finally:
            self.last = obs.key(c)
        return obs.key(c)

    def _nbr(self, op):
        c = self.cfg(op)
        seed = op["seed"] if op["int"] else np.random.RandomState(op["seed"])
        out = []
        g = U.get_one_exchange_neighbourhood(c, seed=seed, num_neighbors=op["num"])
        for x in g:
            out.append(obs.key(x) + str(obs.vec(x)))
            if len(out) >= op["take"]:
                break
            if self.between is not None:
                self.between()
        g.close()
        return ";".join(out)

    def _rnd(self, op):
        return obs.key(U.get_random_neighbor(self.cfg(op), seed=op["seed"]))

    def _check(self, op):
        self.cfg(op).check_valid_configuration()
        return "valid"

    def _vcheck(self, op):
        self.s.check_configuration_vector_representation(self.cfg(op).get_array())
        return "valid"

    def _ccheck(self, op):
        v = np.array(self.cfg(op).get_array())
        v[op["c"] % len(v)] = np.nan if op["c"] % 2 else 0.37
        self.s.check_configuration_vector_representation(v)
        return "valid"

    def _active(self, op):
        return ",".join(sorted(self.s.get_active_hyperparameters(self.cfg(op))))

    def _values(self, op):
        c = self.cfg(op)
        return f"{obs.key(c)} {len(c)} {sorted(c.keys())} {[n in c for n in self.s]} {[repr(obs.norm(c.get(n))) for n in self.s]} {str(c)}"

    def _hash(self, op):
        c = self.cfg(op)
        return str(c == self.cfg({"c": op["c"] + 1})) + str(hash(c) == hash(CS.Configuration(self.s, values=dict(c))))

    def _hp_sample(self, op):
        h = self.s[op["h"]]
        rs = lambda: np.random.RandomState(op["seed"])
        return f"{obs.norm(h.sample_value(size=op['n'], seed=rs()))} {obs.vec(h.sample_vector(size=op['n'], seed=rs()))} {obs.norm(h.sample_value(seed=rs()))!r}"

    def _hp_nbr(self, op):
        h = self.s[op["h"]]
        v = h.to_vector(op["v"])
        a = h.neighbors_vectorized(v, n=op["n"], std=op.get("std"), seed=np.random.RandomState(op["seed"]))
        b = h.neighbors_values(op["v"], n=op["n"], std=op.get("std"), seed=np.random.RandomState(op["seed"]))
        return f"{obs.vec(np.asarray(a))} {[repr(obs.norm(x)) for x in b]}"

    def _pdf(self, op):
        h = self.s[op["h"]]
        return f"{np.asarray(h.pdf_values([op['v']])).tolist()} {np.asarray(h.pdf_vector(np.array([h.to_vector(op['v'])]))).tolist()} {h.get_max_density()}"

    def _hp_misc(self, op):
        h = self.s[op["h"]]
        v = op["v"]
        x = h.to_vector(v)
        return f"{h.legal_value(v)} {h.legal_vector(x)} {float(x)!r} {obs.norm(h.to_value(x))!r} {h!r} {h.size} {h == h} {h.get_num_neighbors(v)}"

    def _repr(self, op):
        return repr(self.s)

    def _serial(self, op):
        return obs.canon(obs.serial(self.s))

    def _reload(self, op):
        f = io.StringIO()
        self.s.to_json(f)
        f.seek(0)
        t = CS.ConfigurationSpace.from_json(f)
        t.seed(5)
        return f"{t == self.s} {obs.key(t.sample_configuration())}"

    def _eq(self, op):
        t = self.twin
        return str(self.s == self.s) + (f"{self.s == t}{t == self.s}" if t is not None else "") + str(self.s != 3)

    def _struct(self, op):
        return obs.canon(obs.structure(self.s))

    def _priors(self, op):
        t = self.s.remove_hyperparameter_priors()
        t.seed(3)
        return repr(t) + obs.key(t.sample_configuration())

    def _copy(self, op):
        t = copy.deepcopy(self.s)
        u = pickle.loads(pickle.dumps(self.s))
        t.seed(9)
        u.seed(9)
        return f"{t == self.s} {u == self.s} {obs.key(t.sample_configuration())} {obs.key(u.sample_configuration())}"

    def _impute(self, op):
        c = U.impute_inactive_values(self.cfg(op))
        return obs.key(c)

    def _deact(self, op):
        return obs.key(U.deactivate_inactive_hyperparameters(dict(self.cfg(op)), self.s))

    def _cond_eval(self, op):
        c = self.cfg(op)
        v = c.get_array()
        full = dict(c)
        out = []
        for x in self.s.conditions:
            out.append(bool(x.satisfied_by_vector(v)))
            try:
                out.append(bool(x.satisfied_by_value({k: full[k] for k in full})))
            except KeyError:
                out.append("-")
        for f in self.s.forbidden_clauses:
            out.append(bool(f.is_forbidden_vector(v)))
            try:
                out.append(bool(f.is_forbidden_value(full)))
            except KeyError:
                out.append("-")
        m = np.array([v, v]).T
        for x in self.s.conditions:
            out.append(x.satisfied_by_vector_array(m).tolist())
        for f in self.s.forbidden_clauses:
            out.append(f.is_forbidden_vector_array(m).tolist())
        return str(out)
