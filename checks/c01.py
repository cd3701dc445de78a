"""Native code stays inside its memory, has no undefined behaviour and does not depend on uninitialised memory."""
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from vlib import core

RULE = ("the workloads of the other checks (Markov models of every kind, linear solvers, penalties, fits of every model class and solver, tests of terms, smoothing uncertainty, posterior sampling) run on extensions of the current tree built with "
        "address and undefined-behaviour sanitizers, library and Eigen assertions, once per fill pattern of fresh memory; non-trivial = native functions were called and all their results compared between fill patterns")
ASSUMPTIONS = ["compiled with gcc 13 -O1; only reports that name a source file of this repository, or end the process, count", "results of native calls that take callbacks are not compared between fill patterns"]
REQUIRED = {"batches": 20, "native_calls": 3000, "compared": 1500}
CASE_TIMEOUT = 800
NWORK = 8
LIB = None
# workload, cases per batch, batches in the quick and in the thorough tier
PLAN = [("c10", 9, 5, 40), ("c24", 3, 3, 30), ("c19", 2, 5, 40), ("c21", 2, 3, 20), ("c06", 4, 4, 40), ("c17", 2, 2, 20), ("c22", 3, 3, 20), ("c15", 4, 3, 40), ("c16", 4, 3, 40), ("c18", 3, 2, 20), ("c11", 10, 3, 30), ("c13", 6, 2, 20),
        ("c05", 10, 3, 30), ("c02", 12, 4, 40), ("c03", 10, 4, 40), ("c04", 12, 4, 40), ("c07", 12, 2, 20), ("c08", 12, 1, 10)]


BOUNDS = """
        {
            const ssize_t ix_[] = {ssize_t(index)...};
            bool ok_ = ssize_t(sizeof...(Ix)) == ndim();
            for (ssize_t q_ = 0; ok_ && q_ < ssize_t(sizeof...(Ix)); ++q_) ok_ = ix_[q_] >= 0 && ix_[q_] < shape(q_);
            if (!ok_) {
                fprintf(stderr, "Assertion `index within the dimensions of the array' failed: %d indices (first %ld, last %ld) of an array with %ld dimensions\\n", (int) sizeof...(Ix), (long) ix_[0], (long) ix_[sizeof...(Ix) - 1], (long) ndim());
                fflush(stderr);
                abort();
            }
        }
        return *reinterpret_cast<const T *>(data_
                                            + byte_offset_unsafe(strides_, ssize_t(index)...));"""


def build(scratch):
    flags = "-O1 -g1 -fno-omit-frame-pointer -UNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr -fsanitize-recover=undefined -include " + os.path.join(core.VERIF, "vlib", "eigen_check.h")
    # a copy of pybind11's headers in which element access checks every index
    inc = subprocess.check_output(["/opt/venv/bin/python", "-c", "import pybind11; print(pybind11.get_include())"], text=True).strip()
    mine = os.path.join(scratch, "inc")
    shutil.copytree(inc, mine)
    f = os.path.join(mine, "pybind11", "numpy.h")
    s = open(f).read()
    old = BOUNDS[BOUNDS.index("        return *reinter"):]
    if s.count(old) != 1:
        raise RuntimeError("unexpected pybind11 headers")
    with open(f, "w") as fh:
        fh.write(s.replace(old, BOUNDS))
    return core.build_native(scratch, cflags=flags + " -I" + mine, ldflags="-fsanitize=address,undefined", timeout=600)


def prepare(lib=None, **k):
    global LIB
    LIB = lib
    for f in os.listdir(lib):
        if f.endswith(".so") and b"__asan_init" not in open(os.path.join(lib, f), "rb").read():
            raise RuntimeError(f"{f} is not instrumented")


NO_ACTIVATE = True


def cases(tier, seed):
    rng = np.random.default_rng([1, seed])
    out = []
    for mn, size, q, t in PLAN:
        try:
            mod = importlib.import_module("checks." + mn)
            cs = mod.cases("quick", seed)
        except Exception:
            continue
        kinds = {}
        for c in cs:
            kinds.setdefault(str([c.get(a) for a in ("kind", "k", "fam", "fn", "method", "model")]), []).append(c)
        order = []
        pools = [list(rng.permutation(len(v))) for v in kinds.values()]
        vals = list(kinds.values())
        while any(pools):
            for p, v in zip(pools, vals):
                if p:
                    order.append(v[int(p.pop())])
        order = [c for c in order if c.get("k") not in ("post", "auto", "par", "inv", "proc", "mc") and not c.get("n_cores")]
        if tier == "quick":
            order = [c for c in order if not str(c.get("kind")).startswith("big")]
        nb = q if tier == "quick" else t
        # spread over the kinds: batch b takes every nb-th case
        take = order[: nb * size]
        for b in range(nb):
            sub = take[b::nb]
            if sub:
                out.append({"kind": mn, "batch": b, "cases": sub})
    return out


def child(c, fill):
    lib = LIB
    d = tempfile.mkdtemp(prefix="san_")
    inp, outp = os.path.join(d, "in.json"), os.path.join(d, "out.txt")
    with open(inp, "w") as fh:
        fh.write(core.dumps([{"mod": c["kind"], "case": q} for q in c["cases"]]))
    pre = " ".join(subprocess.check_output(["gcc", "-print-file-name=" + s], text=True).strip() for s in ("libasan.so", "libubsan.so")) + " " + subprocess.check_output(["g++", "-print-file-name=libstdc++.so.6"], text=True).strip()
    env = dict(os.environ)
    env.update(LD_PRELOAD=pre, PYTHONMALLOC="malloc", VERIF_REPO=core.REPO,
               ASAN_OPTIONS=f"detect_leaks=0:handle_abort=1:exitcode=97:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=1000000000:malloc_fill_byte={fill}:max_free_fill_size=1000000:free_fill_byte={fill ^ 255}:detect_stack_use_after_return=1:print_summary=1:quarantine_size_mb=64",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=0")
    err = os.path.join(d, "err.txt")
    with open(err, "w") as eh:
        try:
            p = subprocess.run([sys.executable, os.path.join(core.VERIF, "vlib", "san_child.py"), lib, inp, outp], env=env, stdout=subprocess.DEVNULL, stderr=eh, timeout=CASE_TIMEOUT - 100)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = None
    recs, cur = {}, None
    if os.path.exists(outp):
        for line in open(outp):
            if line.startswith("B "):
                cur = int(line[2:])
            elif line.startswith("R "):
                try:
                    r = json.loads(line[2:])
                except ValueError:
                    continue
                recs[r["k"]] = r
    txt = open(err, errors="replace").read()
    shutil.rmtree(d, ignore_errors=True)
    return rc, recs, cur, txt


def near(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or x[1] != y[1]:
            return False
        if any(abs(p - q) > 1e-7 * (1e-30 + x[3]) for p, q in zip(x[2:], y[2:])):
            return False
    return True


def run_case(c, ctx):
    runs = []
    for fill in (0, 255):
        rc, recs, cur, txt = child(c, fill)
        runs.append(recs)
        if rc is None:
            ctx.seen("slow")
            continue
        rep = re.search(r"ERROR: AddressSanitizer:? (.*)", txt)
        where = re.findall(r"#\d+ 0x[0-9a-f]+ in (.*)", txt)
        inner = core.dumps(c["cases"][cur])[:300] if cur is not None and cur < len(c["cases"]) else ""
        if rep:
            ctx.fail("address", f"{rep.group(1)[:200]}; {' <- '.join(w[:140] for w in where[:4])}; workload {c['kind']} {inner}", txt[-3500:])
        elif rc < 0 or re.search(r"Assertion .* failed", txt):
            a = re.search(r".*Assertion .* failed.*", txt)
            ctx.fail("crash", f"process ended with status {rc}: {a.group(0)[:300] if a else ''}; workload {c['kind']} {inner}", txt[-3500:])
        elif rc != 0 and not recs:
            ctx.skip(f"child status {rc}: {txt[-200:]}")
        ub = sorted({m for m in re.findall(r"^(\S+?: runtime error: .*)$", txt, re.M) if "src/mssm/" in m or "src/cpp/" in m})
        for u in ub[:5]:
            ctx.fail("undefined", f"{u[:300]}; workload {c['kind']}", None)
        ctx.seen("batches")
        for r in recs.values():
            for k, v in r["count"].items():
                ctx.seen("native_calls", v)
                ctx.seen("call:" + k, v)
        ctx.seen("cases", len(recs))
    for k in sorted(set(runs[0]) & set(runs[1])):
        a, b = runs[0][k]["calls"], runs[1][k]["calls"]
        for i, (p, q) in enumerate(zip(a, b)):
            if p[0] != q[0] or not near(p[1], q[1]):
                ctx.seen("diverged")
                ctx.fail("python_uninit", f"call {i} ({p[0]}) of one workload gets different arguments with another fill pattern of fresh memory; workload {c['kind']} {core.dumps(c['cases'][k])[:300]}")
                break
            ctx.seen("compared")
            if not near(p[2], q[2]):
                ctx.fail("uninitialised", f"{p[0]} returns different results for equal arguments with another fill pattern of fresh memory; workload {c['kind']} {core.dumps(c['cases'][k])[:300]}", [p[2][:6], q[2][:6]])
                break
