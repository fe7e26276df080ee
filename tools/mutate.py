"""Sensitivity: undo each repair in /repo's working tree, run its check, restore.

usage: mutate.py [property or commit ...]
"""

import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def git(*a, **kw):
    return subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True, **kw)


def main():
    only = sys.argv[1:]
    if git("status", "--porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if not m or (only and m.group(1) not in only and m.group(2) not in only):
            continue
        prop, commit, what = m.groups()
        diff = subprocess.run(["git", "-C", "/repo", "show", commit], capture_output=True).stdout
        try:
            r = subprocess.run(["git", "-C", "/repo", "apply", "-R", "--3way", "-"], capture_output=True, input=diff)
            git("reset", "-q")
            if r.returncode or "<<<<<<<" in git("diff").stdout:
                print(f"{prop} {commit} cannot be undone alone: {what}", flush=True)
                continue
            r = subprocess.run([sys.executable, "check.py", prop], cwd=HERE, capture_output=True, text=True)
            tail = r.stdout.strip().splitlines()
            print(f"{prop} {commit} {'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'}: {what} | {tail[0][:150] if tail else r.stderr[-300:]}", flush=True)
        finally:
            git("checkout", "-q", "--", ".")
            git("clean", "-fdq", "src")


main()
