#!/opt/venv/bin/python
"""check.py <property> | --replay <file> | --one <property> <seed> <index>"""

import os
import sys
import traceback

for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
if "PYTHONHASHSEED" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def main():
    from sim import runner

    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a[0] == "--replay":
        return runner.cmd_replay(a[1])
    if a[0] == "--digests":
        runner.cmd_digests(a[1], int(a[2]), a[3], [int(x) for x in a[4].split(",")])
        return 0
    if a[0] == "--digest-plan":
        runner.cmd_digest_plan(a[1])
        return 0
    if a[0] == "--one":
        mod = runner.load(a[1])
        ctx, v = runner.execute(mod, runner.plan_for(mod, a[1], int(a[2]), int(a[3]), tier))
        print("\n".join(ctx.trace))
        print(v if v else "held", ctx.digest())
        return 1 if v else 0
    return runner.check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        print("ERROR the check itself failed", flush=True)
        code = 2
    sys.exit(code)
