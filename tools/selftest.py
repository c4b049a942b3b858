#!/usr/bin/env python3
"""Would the trace modules notice?  Not a check of the code.

selftest.py [ID...]: records the runs of the quick checks.  Some of them get one
observed value changed; TLC must reject each of these.  Models and replays are
left out.  Prints how many were rejected for each module and observed field, and
the changes which were accepted.
"""
import collections
import copy
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
import vf

# What the code under test did, as opposed to what it was given
OBSERVED = {
    "TraceDecode": ("items", "ends"),
    "TraceTotal": ("runs",),
    "TraceRepeat": ("runs",),
    "TraceEncode": ("res", "lens", "out", "back"),
    "TraceFrameEnc": ("res", "lens", "out"),
    "TraceStepEnc": ("res", "lens", "out", "back"),
    "TraceWriter": ("res", "lens", "out"),
    "TraceTranscode": ("res", "out", "again"),
    "TraceFields": ("obs",),
    "TraceCli": ("status", "reports"),
    "TracePipe": ("ev",),
    "TraceValues": ("obs",),
}
SIZE, PER_FIELD = 20000, 6
seen = collections.Counter()
accepted = []


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for k, y in enumerate(x):
            yield from leaves(y, path + (k,))
        if x:
            yield path
    else:
        yield path


def change(r, x, path):
    """Change the value at this place; the last element of a list is dropped"""
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    v = x[k]
    if isinstance(v, list):
        x[k] = v[:-1]
    elif isinstance(v, str):
        x[k] = {"ok": "err", "none": "more"}.get(v, v + "?")
    else:
        x[k] = v ^ 1 if v >= 0 else v + 1
    return x[k]


def validate(self, module, records, what, cfg=None, origin=None, env=None,
             **kw):
    r = random.Random(what)
    small = [x for x in records if len(json.dumps(x)) < SIZE]
    for field in OBSERVED[module]:
        done = 0
        for rec in r.sample(small, min(len(small), 40)):
            if done == PER_FIELD:
                break
            if rec.get(field) in ([], None):
                continue
            bad = copy.deepcopy(rec)
            path = r.choice(list(leaves(bad[field], (field,))))
            new = change(r, bad, path)
            try:
                REAL(self, module, [bad], what, cfg, None, env, **kw)
                res = "ACCEPTED"
                accepted.append((module, what, path, new, bad))
            except SystemExit:
                res = "rejected"
            except vf.ToolError:    # says nothing
                res = "TOOL ERROR"
            done += 1
            seen[module, field, res] += 1
    return vf.Tlc(0, "", 0)


def main():
    for prop in sys.argv[1:] or sorted(checks.CHECKS):
        c = vf.Check(prop, "quick")
        checks.CHECKS[prop](c)
        print(prop, "done", flush=True)
    for key, n in sorted(seen.items()):
        print(*key, n)
    for module, what, path, new, bad in accepted:
        print("accepted:", module, "|", what, "|", path, "->", str(new)[:80])
    with open(os.path.join(vf.BUILD, "accepted.json"), "w") as f:
        json.dump([x[4] for x in accepted], f)


REAL = vf.Check.validate
vf.Check.validate = validate
vf.Check.model = vf.Check.fails = vf.Check.replay = lambda *a, **kw: None
vf.Check.behaviours = lambda *a, **kw: []
main()
