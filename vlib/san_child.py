"""Child of C01: runs cases of other checks on sanitized extensions, records every native call.

argv: lib directory, json file with [{"mod":..., "case":...}, ...], output file
"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402

from vlib import core  # noqa: E402

NATIVE = ("eigen_solvers", "davies", "dChol", "mcmc", "hsmm", "hazard")


def feat(o, out):
    """compact numerical features of (nested) values"""
    if isinstance(o, (tuple, list)):
        for a in o[:64]:
            feat(a, out)
    elif isinstance(o, np.ndarray) and o.dtype.kind in "fiub":
        a = np.asarray(o, dtype=float).ravel()
        f = np.isfinite(a)
        w = np.cos(np.arange(a.size) * 0.7)
        out.append([a.size, int((~f).sum()), float(a[f].sum()), float(np.abs(a[f]).sum()), float((a[f] * w[f]).sum())])
    elif isinstance(o, (int, float, np.integer, np.floating, bool)) or o is None:
        v = 0.0 if o is None else float(o)
        out.append([1, int(not np.isfinite(v)), v if np.isfinite(v) else 0.0, abs(v) if np.isfinite(v) else 0.0, 0.0])


def main(lib, inp, outp):
    core.activate(lib)
    fh = open(outp, "w", buffering=1)
    calls = []
    count = {}

    def wrap(mod, name, fn):
        key = f"{mod}.{name}"

        def f(*a, **k):
            if any(callable(q) for q in a):
                count[key] = count.get(key, 0) + 1
                return fn(*a, **k)
            i = []
            feat(a, i)
            r = fn(*a, **k)
            o = []
            feat(r, o)
            count[key] = count.get(key, 0) + 1
            if len(calls) < 4000:
                calls.append([key, i, o])
            return r
        return f

    for mn in NATIVE:
        m = importlib.import_module(mn)
        for n in dir(m):
            fn = getattr(m, n)
            if n.startswith("_") or not callable(fn):
                continue
            setattr(m, n, wrap(mn, n, fn))
    for k, q in enumerate(json.load(open(inp))):
        fh.write("B %d\n" % k)
        mod = importlib.import_module("checks." + q["mod"])
        calls.clear()
        count.clear()
        rec = core.run_one(mod, q["case"])
        fh.write("R " + core.dumps({"k": k, "status": rec["status"], "calls": calls, "count": count}) + "\n")
    fh.close()


main(*sys.argv[1:4])
