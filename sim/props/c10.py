"""C10: saving and loading a space never silently loses or alters it."""

from __future__ import annotations

import io
import os
import pathlib
import shutil

from ..files import Disk, SimCrash
from .. import boot
from .c05 import rng
from .common import *  # noqa: F403

from ConfigSpace.read_and_write import json as cs_json

RUNS = {"quick": 4500, "thorough": 60000}
RULE = (
    "histories of saves and loads of several spaces over a few paths, through paths, open "
    "files and buffers, with full disks, I/O errors at opening, writing and closing, short "
    "and torn writes, crashes, interrupts and read errors; non-trivial: a fault fired or a "
    "save overwrote an earlier one"
)
ASSUMPTIONS = [
    "a crash is the end of the process, not of the machine: what was handed to the system stays",
    "no claim on old content after a save failed half-way with an I/O error",
]
STUBS = ["the lowest layer of Python files in the run's scratch directory (faults injected, data on the real file system)"]

FORMS = ("str", "path", "path", "file", "buffer", "text")
PATHS = ("one.json", "two.json", "sub/three.json")
WRITE_FAULTS = ("nospace", "nospace", "ioerror", "crash", "crash", "short", "openerror", "closeerror", "interrupt", "alloc")
META = ({"note": "x"}, {"n": 3, "deep": {"a": [1, 2, None]}}, {"é": "ü"}, {})
ODD = ("bytes", "complex", "object", "set")


def prepare():
    shutil.rmtree(os.path.join(boot.VERIF, "scratch"), ignore_errors=True)


def finish(tot):
    prepare()


def gen_one(r):
    ref = gen_ref(r, deep=0.03, name=r.choice([None, "n", "näme \"q\"", ""]))
    spec = ref.spec()
    if r.random() < 0.4:
        for h in spec["hps"]:
            if r.random() < 0.5:
                h["meta"] = r.choice(META)
    return {"spec": spec, "build": None, "via": "args", "odd": r.choice(ODD) if r.random() < 0.15 else None}


def gen_fault(r, kinds):
    k = r.choice(kinds)
    return {"kind": k, "at": r.choice([1, 1, 2, 3, 5, 9, 20, r.randint(1, 80)]) if k not in ("openerror", "closeerror") else 1,
            "frac": r.choice([0.0, 1.0, r.random(), r.random()])}


def gen(r, tier, i):
    spaces = [gen_one(r) for _ in range(r.choice([1, 2, 2, 3]))]
    ops = []
    p = r.choice([0.0, 0.3, 0.6])
    for _ in range(r.choice([3, 6, 12])):
        z = r.random()
        if z < 0.55:
            op = {"op": "save", "s": r.randrange(3), "p": r.randrange(len(PATHS)), "form": r.choice(FORMS), "indent": r.choice([None, None, 2]),
                  "ascii": r.random() < 0.8}
            if r.random() < p:
                op["fault"] = gen_fault(r, WRITE_FAULTS)
        elif z < 0.95:
            op = {"op": "load", "p": r.randrange(len(PATHS)), "form": r.choice(FORMS), "seed": r.randrange(1000)}
            if r.random() < p:
                op["fault"] = gen_fault(r, ("readerror", "shortread", "openerror"))
        else:
            op = {"op": "use", "s": r.randrange(3)}
        ops.append(op)
    for k in range(len(PATHS)):
        ops.append({"op": "load", "p": k, "form": "path", "seed": r.randrange(1000)})
    return {"spaces": spaces, "buf": r.choice([16, 64, 512, 8192]), "ops": ops}


class Thing:
    def __repr__(self):
        return "Thing()"


class Run:
    def __init__(self, plan, ctx, disk):
        self.ctx, self.disk, self.plan = ctx, disk, plan
        self.defs = []
        for p in plan["spaces"]:
            ref, batches = load_plan(p)
            if not G.accepted(ref, batches):
                raise BadPlan
            self.defs.append((ref, p["odd"]))
        self.live = [self.make(k) for k in range(len(self.defs))]
        self.may = {}  # path -> definitions its content may stand for
        self.sure = {}  # path -> the content is known to be whole
        self.wanted = {}

    def make(self, k):
        ref, odd = self.defs[k]
        s = build.space(ref)
        if odd:
            v = {"bytes": [b"a", b"b"], "complex": [1j, 2j], "object": [Thing(), Thing()], "set": [frozenset([1]), frozenset([2])]}[odd]
            s.add(CS.CategoricalHyperparameter("odd", v))
        return s

    def want(self, k, seed):
        key = (k, seed)
        if key not in self.wanted:
            t = build.space(self.defs[k][0], seed=seed)
            st = obs.structure(t)
            c = share(self.defs[k][0]) >= 0.03
            self.wanted[key] = (st, obs.samples(t, 3) if c else None, t)
        return self.wanted[key]

    def guarded(self, fn, fault):
        """Run one operation on the faulty disk: (crashed, result)."""
        crashed = []

        def go():
            try:
                return fn()
            except SimCrash:
                crashed.append(1)

        lib_fault = None
        if fault and fault["kind"] in ("interrupt", "alloc"):
            lib_fault, fault = {"kind": fault["kind"], "at": fault["at"]}, None
        self.disk.begin(fault)
        try:
            r = self.ctx.lib(go, fault=lib_fault)
        finally:
            fired = self.disk.end()
        return bool(crashed), fired or r.fired, r

    # ---------------------------------------------------------------- save
    def save(self, op):
        ctx = self.ctx
        k = op["s"] % len(self.defs)
        s, name = self.live[k], PATHS[op["p"]]
        path = self.disk.path(name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        kw = {} if op["indent"] is None else {"indent": op["indent"]}
        if not op["ascii"]:
            kw["ensure_ascii"] = False
        form = op["form"]

        def go():
            if form == "str":
                s.to_json(path, **kw)
            elif form == "path":
                s.to_json(pathlib.Path(path), **kw)
            elif form == "text":
                text = cs_json.write(s)
                with open(path, "w", encoding="utf8") as f:
                    f.write(text)
            elif form == "file":
                with open(path, "w", encoding="utf8") as f:
                    s.to_json(f, **kw)
            else:
                b = io.StringIO()
                s.to_json(b, **kw)
                with open(path, "w", encoding="utf8") as f:
                    f.write(b.getvalue())

        odd = self.defs[k][1]
        before, state, old = obs.structure(s) if not odd else None, rng(s), self.disk.content(name)
        crashed, fired, r = self.guarded(go, op.get("fault"))
        ctx.ev("save", k, name, form, r.err, fired, crashed)
        if fired:
            ctx.nontrivial = True
        if rng(s) != state or (before is not None and obs.structure(s) != before):
            ctx.fail("save-changed-space", obs.diff(before, obs.structure(s)))
        if odd:
            if r.ok and not crashed:
                ctx.fail("unrepresentable-saved", odd)
            if form in ("str", "path") and self.disk.content(name) != old:
                ctx.fail("unrepresentable-touched-file", odd)
            ctx.probe("refused:" + odd)
            if form not in ("str", "path"):
                self.sure.pop(name, None)  # the caller's own open() emptied it
        elif r.ok and not crashed:
            if old is not None:
                ctx.nontrivial = True
            self.may[name] = {k}
            self.sure[name] = True
        else:
            if not fired:
                ctx.fail("save-failed", f"{r.exc!r}")
            self.may.setdefault(name, set()).add(k)
            self.sure.pop(name, None)
        if crashed:
            ctx.probe("restart")
            self.live = [self.make(j) for j in range(len(self.defs))]

    # ---------------------------------------------------------------- load
    def load(self, op):
        ctx = self.ctx
        name = PATHS[op["p"]]
        path, form = self.disk.path(name), op["form"]
        L = CS.ConfigurationSpace.from_json

        def go():
            if form == "str":
                return L(path)
            if form == "path":
                return L(pathlib.Path(path))
            with open(path, encoding="utf8") as f:
                if form == "file":
                    return L(f)
                text = f.read()
            return cs_json.read(text) if form == "text" else L(io.StringIO(text))

        old = self.disk.content(name)
        _, fired, r = self.guarded(go, op.get("fault"))
        ctx.ev("load", name, form, r.ok, fired)
        if self.disk.content(name) != old:
            ctx.fail("load-changed-file", name)
        if not r.ok:
            if self.sure.get(name) and not (fired and fired != "shortread"):
                ctx.fail("lost", f"{name}: {r.exc!r}")
            if old is not None:
                ctx.probe("load-refused")
            return
        if fired:
            ctx.nontrivial = True
        if not isinstance(r.value, CS.ConfigurationSpace):
            ctx.fail("loaded-nothing", repr(r.value))
        got = r.value
        st = ctx.must("look", obs.structure, got)
        got.seed(op["seed"])
        why = "nothing was saved there"
        for k in sorted(self.may.get(name, ())):
            if self.defs[k][1]:
                continue
            want, smp, twin = self.want(k, op["seed"])
            if st != want:
                why = obs.diff(want, st)
                continue
            if not ctx.must("eq", twin.__eq__, got) or not (got == twin):
                ctx.fail("not-equal", f"loaded space differs from the saved one {name}")
            if smp is not None:
                t = ctx.must("sample", obs.samples, got, 3)
                if t != smp:
                    ctx.fail("samples-differ", f"{t} instead of {smp}")
            ctx.probe("loaded" if self.sure.get(name) else "loaded-after-failure")
            return
        ctx.fail("altered", f"{name}: {why}")

    def use(self, op):
        k = op["s"] % len(self.defs)
        if share(self.defs[k][0]) >= 0.03:
            self.ctx.must("sample", self.live[k].sample_configuration)


def run(plan, ctx):
    with Disk(ctx, plan["buf"]) as disk:
        z = Run(plan, ctx, disk)
        for op in plan["ops"]:
            getattr(z, op["op"])(op)
