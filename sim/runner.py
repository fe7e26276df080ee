"""Seeded search: many runs over worker processes, evidence, minimised replays."""

from __future__ import annotations

import copy
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import resource
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import boot, core, shrink

WORKERS = 8
OTHER = "other-interpreter"
RUN_WALL = 150
DEADLINE = {"quick": 420, "thorough": 780}
REPLAYS = os.path.join(boot.VERIF, "replays")
EVIDENCE = os.path.join(boot.VERIF, "evidence")
KNOWN = os.path.join(boot.VERIF, "known_findings.txt")


def load(pid):
    return importlib.import_module("sim.props." + pid.lower())


def plan_for(mod, pid, seed, index, tier):
    r = random.Random(f"{pid}:{seed}:{index}")
    return mod.gen(r, tier, index)


def reset_globals(salt=0):
    import numpy as np

    random.seed(12345 + salt)
    np.random.seed(54321 + salt)


def execute(mod, plan):
    """Run one plan. Returns (ctx, violation or None)."""
    core.monitor_on()
    reset_globals()
    ctx = core.Ctx()
    try:
        mod.run(copy.deepcopy(plan), ctx)  # the library may keep what it is given
        return ctx, None
    except core.BadPlan:
        ctx.skipped = True
        return ctx, None
    except core.Violation as v:
        return ctx, v


def _alarm(*_):
    raise core.HarnessTimeout


def _kind(mod, plan):
    try:
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            _, v = execute(mod, plan)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return v.kind if v else None
    except BaseException:
        return None


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def repeats(mod, tier, seed):
    """(stride of the runs repeated elsewhere, hash seeds of those interpreters)"""
    count, seeds = getattr(mod, "REPEAT", {}).get(tier, (24, (77 + seed,)))
    return max(1, mod.RUNS[tier] // count), seeds


def worker(pid, seed, tier, w, n, first_bad, deadline, q):
    _limits()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mod = load(pid)
    out = {
        "runs": 0,
        "skipped": 0,
        "ops": 0,
        "steps": 0,
        "nontrivial": 0,
        "digests": set(),
        "schedules": set(),
        "fired": Counter(),
        "planned": Counter(),
        "probes": Counter(),
        "violations": [],
        "errors": [],
        "cut": False,
        "samples": [],
        "by_index": {},
    }
    stride, _ = repeats(mod, tier, seed)
    for i in range(w, n, WORKERS):
        if i > first_bad.value:
            break
        if time.monotonic() > deadline:
            out["cut"] = True
            break
        plan = None
        try:
            signal.setitimer(signal.ITIMER_REAL, RUN_WALL)
            try:
                plan = plan_for(mod, pid, seed, i, tier)
                ctx, v = execute(mod, plan)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except BaseException as e:
            if isinstance(e, SystemExit):
                raise
            out["errors"].append(
                {"index": i, "error": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}
            )
            if len(out["errors"]) > 5:
                break
            continue
        if ctx.skipped:
            out["skipped"] += 1
            continue
        out["runs"] += 1
        out["ops"] += ctx.ops
        out["steps"] += ctx.steps
        d = ctx.digest()
        if ctx.nontrivial:
            out["nontrivial"] += 1
            out["digests"].add(d)
        if ctx.schedule:
            out["schedules"].add(ctx.schedule)
        if i % stride == 0:
            out["by_index"][i] = d
        for k in ("fired", "planned", "probes"):
            out[k].update(getattr(ctx, k))
        if len(out["samples"]) < 1 and ctx.nontrivial:
            out["samples"].append({"index": i, "digest": d, "trace": ctx.trace[:25]})
        if v is not None:
            out["violations"].append({"index": i, "kind": v.kind, "detail": v.detail, "plan": plan})
            with first_bad.get_lock():
                first_bad.value = min(first_bad.value, i)
            break
    q.put(out)


def merge(outs):
    tot = outs[0]
    for o in outs[1:]:
        for k in ("runs", "skipped", "ops", "steps", "nontrivial"):
            tot[k] += o[k]
        for k in ("digests", "schedules"):
            tot[k] |= o[k]
        for k in ("fired", "planned", "probes"):
            tot[k].update(o[k])
        for k in ("violations", "errors", "samples"):
            tot[k] += o[k]
        tot["by_index"].update(o["by_index"])
        tot["cut"] |= o["cut"]
    return tot


def search(pid, seed, tier, n):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    first_bad = ctx.Value("q", 1 << 60)
    deadline = time.monotonic() + DEADLINE[tier]
    ps = [
        ctx.Process(target=worker, args=(pid, seed, tier, w, n, first_bad, deadline, q))
        for w in range(WORKERS)
    ]
    for p in ps:
        p.start()
    outs, dead = [], 0
    while len(outs) + dead < len(ps):
        try:
            outs.append(q.get(timeout=5))
        except Exception:
            alive = sum(p.is_alive() for p in ps)
            if alive == 0 and q.empty():
                dead = len(ps) - len(outs)
            if time.monotonic() > deadline + RUN_WALL + 30:
                dead = len(ps) - len(outs)
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    if not outs:
        return None
    tot = merge(outs)
    tot["lost_workers"] = dead
    return tot


# ------------------------------------------------------------------ other interpreters
def digests_elsewhere(pid, seed, tier, indices, hashseed):
    """Event-log digests of some runs in fresh interpreters."""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    k = max(1, min(WORKERS, len(indices) // 6))
    ps = [
        subprocess.Popen(
            [sys.executable, os.path.join(boot.VERIF, "check.py"), "--digests", pid, str(seed), tier,
             ",".join(map(str, indices[j::k]))],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=boot.VERIF,
        )
        for j in range(k)
    ]
    out = {}
    for p in ps:
        try:
            text, _ = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None
        if p.returncode != 0:
            return None
        out.update({int(i): v for i, v in json.loads(text.strip().splitlines()[-1]).items()})
    return out


def plan_digest_elsewhere(pid, plan, hashseed):
    r = subprocess.run(
        [sys.executable, os.path.join(boot.VERIF, "check.py"), "--digest-plan", pid],
        input=json.dumps(plan), capture_output=True, text=True, timeout=120, cwd=boot.VERIF,
        env=dict(os.environ, PYTHONHASHSEED=str(hashseed)),
    )
    return r.stdout.strip().splitlines()[-1] if r.returncode == 0 else None


def cmd_digest_plan(pid):
    signal.signal(signal.SIGALRM, _alarm)
    ctx, v = execute(load(pid), json.load(sys.stdin))
    print("skipped" if ctx.skipped else f"{ctx.digest()} {v.kind if v else None}")


def interpreters_differ(pid, plan, hashseeds):
    ds = {plan_digest_elsewhere(pid, plan, h) for h in hashseeds}
    return len(ds) > 1 and "skipped" not in ds and None not in ds


def cmd_digests(pid, seed, tier, indices):
    signal.signal(signal.SIGALRM, _alarm)
    mod = load(pid)
    out = {}
    for i in indices:
        signal.setitimer(signal.ITIMER_REAL, RUN_WALL)
        try:
            ctx, _ = execute(mod, plan_for(mod, pid, seed, i, tier))
            out[i] = ctx.digest()
        except BaseException as e:
            out[i] = f"error {type(e).__name__}"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    print(json.dumps(out))


# ------------------------------------------------------------------ replay
def write_replay(pid, seed, tier, v, mod):
    os.makedirs(REPLAYS, exist_ok=True)
    ctx = mp.get_context("fork")
    q = ctx.Queue()

    def go():
        _limits()
        signal.signal(signal.SIGALRM, _alarm)
        if v["kind"] == OTHER:
            hs = v["plan_hashseeds"]
            plan, evals = shrink.minimise(
                v["plan"], OTHER, lambda p: OTHER if interpreters_differ(pid, p, hs) else None, max_evals=40, max_s=70
            )
            c, _ = execute(mod, plan)
            q.put((plan, evals, c.trace, "-", OTHER, v["detail"]))
            return
        plan, evals = shrink.minimise(v["plan"], v["kind"], lambda p: _kind(mod, p))
        c, viol = execute(mod, plan)
        q.put((plan, evals, c.trace, c.digest(), viol.kind if viol else None, viol.detail if viol else ""))

    p = ctx.Process(target=go)
    p.start()
    try:
        plan, evals, trace, dig, kind, detail = q.get(timeout=90)
    except Exception:
        plan, evals, trace, dig, kind, detail = v["plan"], 0, [], None, v["kind"], v["detail"]
    p.join(timeout=2)
    if p.is_alive():
        p.kill()
    path = os.path.join(REPLAYS, f"{pid}-{seed}-{v['index']}.json")
    rec = {
        "property": pid,
        "seed": seed,
        "index": v["index"],
        "tier": tier,
        "kind": v["kind"],
        "detail": detail,
        "minimise_evaluations": evals,
        "digest": dig,
        "plan": plan,
        "trace": trace,
        "hashseeds": v.get("plan_hashseeds"),
        "original_plan": v["plan"],
    }
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    # Once more from the file, in an interpreter that shares nothing with this one.
    try:
        r = subprocess.run(
            [sys.executable, os.path.join(boot.VERIF, "check.py"), "--replay", path],
            capture_output=True, text=True, timeout=120, cwd=boot.VERIF,
        )
        same = f"REPLAYED kind={v['kind']} digest={dig}" in r.stdout
    except subprocess.TimeoutExpired:
        same = False
    rec["replayed_identically"] = same
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path, rec


def cmd_replay(path):
    signal.signal(signal.SIGALRM, _alarm)
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec["property"])
    if rec["kind"] == OTHER:
        if interpreters_differ(rec["property"], rec["plan"], rec["hashseeds"]):
            print(f"REPLAYED kind={OTHER} digest=-")
            print(rec["detail"])
            return 1
        print("REPLAYED no violation")
        return 0
    ctx, v = execute(mod, rec["plan"])
    for t in ctx.trace:
        print("  ", t)
    if v is None:
        print("REPLAYED no violation")
        return 0
    print(f"REPLAYED kind={v.kind} digest={ctx.digest()}")
    print(v.detail)
    return 1


# ------------------------------------------------------------------ known findings
def known(pid):
    """Open findings: lines `finding: property=<id> kind=<kind> detail~=<regex> <what>`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) kind=(\S+) detail~=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


# ------------------------------------------------------------------ a check
def check(pid, tier, seed):
    t0 = time.monotonic()
    mod = load(pid)
    n = mod.RUNS[tier]
    if hasattr(mod, "prepare"):
        mod.prepare()
    core.monitor_on()
    tot = search(pid, seed, tier, n)
    if tot is None:
        print(f"ERROR property={pid} no worker finished", flush=True)
        return 2
    # ---- the simulator itself must be repeatable: some runs again, elsewhere
    recheck = None
    idx = sorted(tot["by_index"])
    if idx and not tot["violations"]:
        recheck = {"runs": 0, "different": 0, "hash_seeds": []}
        for h in repeats(mod, tier, seed)[1]:
            other = digests_elsewhere(pid, seed, tier, idx, h)
            if other is None:
                tot["errors"].append({"index": -1, "error": "re-run interpreter failed", "tb": ""})
                break
            bad = [i for i in idx if other.get(i) != tot["by_index"][i]]
            recheck["runs"] += len(idx)
            recheck["different"] += len(bad)
            recheck["hash_seeds"].append(h)
            if bad and getattr(mod, "REPEAT_IS_PROPERTY", False):
                tot["violations"].append(
                    {"index": bad[0], "kind": OTHER,
                     "detail": f"results differ between interpreters with hash seeds 0 and {h}",
                     "plan_hashseeds": [0, h],
                     "plan": plan_for(mod, pid, seed, bad[0], tier)}
                )
                break
    extra = {}
    if hasattr(mod, "finish"):
        extra = mod.finish(tot) or {}
    wall = time.monotonic() - t0
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["digests"]),
        "rule": mod.RULE,
        "samples": tot["samples"][:3],
        "skipped_plans": tot["skipped"],
        "operations": tot["ops"],
        "seeds_per_hour": int(tot["runs"] / max(wall, 0.1) * 3600),
        "simulated_time_events": tot["steps"],
        "faults_planned": dict(tot["planned"]),
        "faults_fired": dict(tot["fired"]),
        "probes": dict(sorted(tot["probes"].items())),
        "distinct_measure": "digest of the event log (operations, outcomes, fault positions)",
        "repeat_in_other_interpreter": recheck,
        "components_real": ["ConfigSpace (/repo/src)", "numpy", "scipy", "json", "pickle/copy"],
        "components_stubbed": getattr(mod, "STUBS", []),
        **extra,
    }
    if tot["schedules"]:
        cov["distinct_interleavings"] = len(tot["schedules"])
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL if hasattr(mod, "LEVEL") else "exploration",
        "coverage": cov,
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(tot["violations"]),
    }
    code = 0
    vs = sorted(tot["violations"], key=lambda v: v["index"])
    opened = known(pid)
    fresh = []
    for v in vs:
        k = next((k for k in opened if k[0] == v["kind"] and re.search(k[1], v["detail"])), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[2]}")
        else:
            fresh.append(v)
    if fresh:
        path, rec = write_replay(pid, seed, tier, fresh[0], mod)
        print(f"{rec['kind']}: {rec['detail'][:1500]}")
        print(f"seed={seed} index={rec['index']} replayed_identically={rec['replayed_identically']}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        code = 1
    os.makedirs(EVIDENCE, exist_ok=True)
    ev["wall_s"] = round(time.monotonic() - t0, 2)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        if tot["errors"]:
            for e in tot["errors"][:3]:
                print(f"HARNESS-ERROR property={pid} index={e['index']} {e['error']}\n{e['tb']}", file=sys.stderr)
            return 2
        if tot["lost_workers"] or tot["cut"] or tot["skipped"] > n // 10:
            print(f"ERROR property={pid} incomplete: {tot['runs']} of {n} runs", file=sys.stderr)
            return 2
        print(f"OK property={pid} runs={tot['runs']} distinct={len(tot['digests'])} ops={tot['ops']} wall={ev['wall_s']}s")
    return code
