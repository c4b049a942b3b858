#!/usr/bin/env python3
"""Run the check of each planted bug's property with the bug in /repo.

Not a check itself: seedrun.py [ID...] applies each patch, runs the quick
check, undoes the patch and prints a table.
"""
import json
import os
import subprocess
import sys
import time

SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../seeded")


def sh(*args, **kw):
    return subprocess.run(args, capture_output=True, text=True, **kw)


def main():
    # vcheck sees what is done to /repo
    assert sh("pgrep", "-f", "vcheck/endcheck[.]py").returncode, "vcheck is running"
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    missed = []
    for bug in ids:
        path = os.path.realpath(os.path.join(SEEDED, bug))
        with open(path + "/meta.json") as f:
            prop = json.load(f)["property"]
        r = sh("git", "-C", "/repo", "apply", path + "/patch.diff")
        assert r.returncode == 0, r.stderr
        t = time.time()
        try:
            r = sh("/verif/check", prop, "quick", cwd="/verif")
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        if not hit:
            missed.append(bug)
        print(f"{bug:26} {prop} exit {r.returncode} "
              f"{'caught' if hit else 'MISSED'} {time.time() - t:.0f}s",
              flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:], r.stderr[-1500:])
    print("missed:", missed)


main()
