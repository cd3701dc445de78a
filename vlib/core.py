"""Shared machinery: build the native code of /repo, run monitored cases in
crash-isolated worker processes, decide, write evidence and replay files."""

import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))  # only for tools/mutate.py: end at the first violation
NWORK = int(os.environ.get("VERIF_JOBS", "8"))
GENERATED = ("eigen_solvers", "davies", "dChol", "mcmc", "hsmm", "hazard")


# --------------------------------------------------------------------------- build
def build_native(dest, cflags="", ldflags="", use_cache=True, cxx="g++", cc="gcc", timeout=700):
    """Compile the extensions of the current tree of /repo into `dest` (never into /repo)."""
    env = dict(os.environ)
    env.update(
        CONDA_PREFIX="/usr",
        SETUPTOOLS_SCM_PRETEND_VERSION="1.2.5",
        PYTHONDONTWRITEBYTECODE="1",
        HOME=dest,
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    )
    for k in ("LC_ALL", "LANG", "LC_CTYPE", "LC_MESSAGES"):  # part of the compiler cache's key
        env.pop(k, None)
    os.makedirs(dest, exist_ok=True)
    if use_cache and os.path.isdir("/opt/ccache") and shutil.which("ccache"):
        # a private copy: hits for unchanged sources, and /opt is left alone
        ccd = os.path.join(dest, "ccache")
        try:
            shutil.copytree("/opt/ccache", ccd, dirs_exist_ok=True, symlinks=True)
        except shutil.Error:
            pass
        env.update(CC="ccache " + cc, CXX="ccache " + cxx, CCACHE_DIR=ccd, CCACHE_COMPILERCHECK="content")
    else:
        env.update(CC=cc, CXX=cxx)
    if cflags:
        env["CFLAGS"] = env["CXXFLAGS"] = cflags
    if ldflags:
        env["LDFLAGS"] = ldflags
    lib = os.path.join(dest, "lib")
    os.makedirs(lib, exist_ok=True)
    p = subprocess.run(
        ["/opt/venv/bin/python", "setup.py", "-q", "build_ext", "--force", "--parallel", "8",
         "--build-lib", lib, "--build-temp", os.path.join(dest, "tmp")],
        cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
    )
    if p.returncode != 0:
        raise RuntimeError("native build failed:\n" + p.stdout[-4000:])
    shutil.rmtree(os.path.join(dest, "tmp"), ignore_errors=True)
    shutil.rmtree(os.path.join(dest, "ccache"), ignore_errors=True)
    return lib


def activate(lib):
    """Put the freshly built extensions and /repo/src first on the path."""
    src = os.path.join(REPO, "src")
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != src]
    sys.path.insert(0, src)
    sys.path.insert(0, lib)
    sys.dont_write_bytecode = True
    import eigen_solvers, hsmm, mssm  # noqa

    assert os.path.dirname(os.path.abspath(eigen_solvers.__file__)) == os.path.abspath(lib), eigen_solvers.__file__
    assert os.path.dirname(os.path.abspath(hsmm.__file__)) == os.path.abspath(lib)
    assert os.path.abspath(mssm.__file__).startswith(os.path.abspath(REPO)), mssm.__file__


# --------------------------------------------------------------------------- case context
class Violated(Exception):
    pass


class Skip(Exception):
    """The case cannot be judged (precondition unmet, API not there): inconclusive."""


class Ctx:
    def __init__(self, case):
        self.case = case
        self.events = {}
        self.bad = []
        self.sample = None
        self.maxerr = {}

    def seen(self, key, n=1):
        self.events[key] = self.events.get(key, 0) + n

    def fail(self, key, msg, detail=None):
        self.bad.append({"monitor": key, "message": str(msg)[:1500], "detail": detail})

    def ok(self, key, cond, msg="", detail=None):
        self.seen(key)
        if not bool(cond):
            self.fail(key, msg, detail)
        return bool(cond)

    def close(self, key, a, b, rtol=1e-6, atol=1e-8, msg="", scale=None):
        """|a-b| <= atol + rtol*scale with scale = max|b| unless given; nan patterns must agree."""
        import numpy as np

        self.seen(key)
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
                if a.size != b.size:
                    raise ValueError
            except ValueError:
                self.fail(key, f"{msg}: shapes {a.shape} vs {b.shape}")
                return False
        if a.size == 0:
            return True
        fin = np.isfinite(b)
        same_nf = np.array_equal(np.isnan(a[~fin]), np.isnan(b[~fin])) and np.array_equal(
            a[~fin][~np.isnan(b[~fin])], b[~fin][~np.isnan(b[~fin])])
        if not same_nf or not np.all(np.isfinite(a[fin])):
            self.fail(key, f"{msg}: non-finite mismatch got={a.ravel()[:6]} want={b.ravel()[:6]}")
            return False
        if not fin.any():
            return True
        err = float(np.max(np.abs(a[fin] - b[fin])))
        sc = float(np.max(np.abs(b[fin]))) if scale is None else float(scale)
        tol = atol + rtol * sc
        rel = err / tol if tol > 0 else (0.0 if err == 0 else np.inf)
        if rel > self.maxerr.get(key, 0.0):
            self.maxerr[key] = rel
        if not err <= tol:
            k = int(np.argmax(np.where(fin, np.abs(a - b), -1)))
            self.fail(key, f"{msg}: max |diff|={err:.6g} > tol={tol:.3g}; got {a.ravel()[k]:.12g} want {b.ravel()[k]:.12g}")
            return False
        return True

    def skip(self, why):
        raise Skip(why)


def _innermost_mssm(tb):
    """Does the traceback pass through the code under test?"""
    src = os.path.join(os.path.abspath(REPO), "src")
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(src):
            return True
    return False


def run_one(mod, case):
    """Run one case; returns a json-able record."""
    import numpy as np

    ctx = Ctx(case)
    rec = {"case": case, "status": "held"}
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run_case(case, ctx)
    except Skip as e:
        rec["status"] = "skip"
        rec["why"] = str(e)[:300]
    except (AttributeError, ImportError, NameError, TypeError) as e:
        if isinstance(e, TypeError) and "argument" not in str(e) or _innermost_mssm(e.__traceback__):
            ctx.fail("raised", f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:])
        else:
            rec["status"] = "skip"
            rec["why"] = f"api {type(e).__name__}: {e}"[:300]
            rec["trace"] = traceback.format_exc()[-1500:]
    except MemoryError as e:
        rec["status"] = "skip"
        rec["why"] = f"MemoryError {e}"
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        ctx.fail("raised", f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:])
    if ctx.bad:
        rec["status"] = "violated"
    rec["bad"] = ctx.bad
    rec["events"] = ctx.events
    rec["maxerr"] = ctx.maxerr
    rec["sample"] = ctx.sample
    rec["t"] = round(time.time() - t0, 3)
    return rec


class _Enc(json.JSONEncoder):
    def default(self, o):
        import numpy as np

        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, (np.integer,)):
            return int(o)
        if isinstance(o, (np.floating,)):
            return float(o)
        if isinstance(o, (np.bool_,)):
            return bool(o)
        return str(o)


def dumps(o, **k):
    return json.dumps(o, cls=_Enc, **k)


# --------------------------------------------------------------------------- pool
def _record_lines():
    """VERIF_COV=FILE: append every line of the library that a case executes to FILE (see tools/cov.py)."""
    got, root, mon = set(), os.path.join(REPO, "src") + os.sep, sys.monitoring

    def line(code, no):
        if code.co_filename.startswith(root):
            got.add((code.co_filename[len(root):], no))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "verif")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return got


def _worker(mod, cases, idx, wfd, cfd):
    """Child: take case numbers from a shared pipe of single bytes pairs, write records as lines."""
    out = os.fdopen(wfd, "w", buffering=1)
    lines = _record_lines() if os.environ.get("VERIF_COV") else None
    for k in idx:
        out.write("B %d\n" % k)
        out.flush()
        rec = run_one(mod, cases[k])
        if lines:
            with open(os.environ["VERIF_COV"], "a") as fh:
                fh.write("".join(f"{a}:{b}\n" for a, b in lines))
            lines.clear()
        out.write("R " + dumps(rec) + "\n")
        out.flush()
    out.close()
    os._exit(0)


def run_pool(mod, cases, case_timeout, progress=False, nwork=None, stop_at=None, kill_at=None):
    """Fork workers over interleaved slices; a dying worker is replaced after its crashed case.
    No case is started after stop_at, none goes on after kill_at (both times of day)."""
    import selectors

    nwork = nwork or NWORK
    recs = [None] * len(cases)
    todo = list(range(len(cases)))[::-1]
    sel = selectors.DefaultSelector()
    live = {}
    CH = 1 if len(cases) < nwork * 6 else max(1, min(8, len(cases) // (nwork * 6)))

    def spawn():
        if not todo:
            return
        idx = [todo.pop() for _ in range(min(CH, len(todo)))]
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                log = os.environ.get("VERIF_CASE_LOG")
                dn = os.open(log or os.devnull, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
                os.dup2(dn, 1)
                if not os.environ.get("VERIF_KEEP_STDERR"):
                    os.dup2(dn, 2)
                _worker(mod, cases, idx, w, None)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(w)
        os.set_blocking(r, False)
        live[r] = {"pid": pid, "buf": b"", "cur": None, "idx": idx, "t": time.time()}
        sel.register(r, selectors.EVENT_READ)

    def finish(fd, killed=None):
        st = live.pop(fd)
        sel.unregister(fd)
        os.close(fd)
        try:
            os.killpg(st["pid"], signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        _, stat = os.waitpid(st["pid"], 0)
        left = [k for k in st["idx"] if recs[k] is None]
        if left:
            cur = st["cur"]
            if cur is not None and recs[cur] is None:
                if killed:
                    recs[cur] = {"case": cases[cur], "status": "timeout", "bad": [], "events": {}, "maxerr": {}, "why": killed}
                elif os.WIFSIGNALED(stat) and os.WTERMSIG(stat) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                    recs[cur] = {"case": cases[cur], "status": "violated", "events": {}, "maxerr": {},
                                 "bad": [{"monitor": "crash", "message": f"process died with signal {os.WTERMSIG(stat)}", "detail": None}]}
                elif hasattr(mod, "on_exit_status") and os.WIFEXITED(stat) and mod.on_exit_status(os.WEXITSTATUS(stat)):
                    recs[cur] = {"case": cases[cur], "status": "violated", "events": {}, "maxerr": {},
                                 "bad": [{"monitor": "sanitizer", "message": mod.on_exit_status(os.WEXITSTATUS(stat)), "detail": None}]}
                else:
                    recs[cur] = {"case": cases[cur], "status": "skip", "bad": [], "events": {}, "maxerr": {}, "why": f"worker status {stat}"}
                left = [k for k in left if k != cur]
            todo.extend(left[::-1])

    while todo or live:
        if stop_at and time.time() > stop_at:
            todo.clear()
        while todo and len(live) < nwork:
            spawn()
        for key, _ in sel.select(timeout=1.0):
            fd = key.fd
            try:
                chunk = os.read(fd, 1 << 16)
            except BlockingIOError:
                continue
            st = live[fd]
            if not chunk:
                finish(fd)
                continue
            st["buf"] += chunk
            while b"\n" in st["buf"]:
                line, st["buf"] = st["buf"].split(b"\n", 1)
                s = line.decode("utf8", "replace")
                if s.startswith("B "):
                    st["cur"] = int(s[2:])
                    st["t"] = time.time()
                elif s.startswith("R "):
                    recs[st["cur"]] = json.loads(s[2:])
                    if FAILFAST and recs[st["cur"]]["status"] == "violated":
                        todo.clear()
                        kill_at = 1
                    if progress:
                        r = recs[st["cur"]]
                        print(st["cur"], r["status"], r.get("t"), r.get("why", ""), dumps(r["case"])[:150], file=sys.stderr)
        now = time.time()
        for fd in list(live):
            if now - live[fd]["t"] > case_timeout:
                finish(fd, killed=f"no answer within {case_timeout} s")
            elif kill_at and now > kill_at:
                finish(fd, killed="stopped at the time limit of the whole check")
    return [r for r in recs if r is not None]


# --------------------------------------------------------------------------- findings
def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [f for f in data.get("findings", []) if f["property"] == pid and f.get("status") == "open"]


def match_finding(findings, case, bad):
    for f in findings:
        m = f["match"]
        if m.get("monitor") not in (None, bad["monitor"]):
            continue
        if not all(case.get(k) == v for k, v in m.get("case", {}).items()):
            continue
        if m.get("contains") and m["contains"] not in bad["message"]:
            continue
        return f
    return None


def case_key(case):
    return hashlib.sha256(dumps(case, sort_keys=True).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------- main
def main(pid, mod, tier, seed, replay=None, lib=None, verbose=False, only=None):
    t0 = time.time()
    scratch = None
    try:
        if lib is None:
            scratch = tempfile.mkdtemp(prefix=f"mssmv_{pid}_")
            lib = mod.build(scratch) if hasattr(mod, "build") else build_native(scratch)
        if not getattr(mod, "NO_ACTIVATE", False):
            activate(lib)
        if hasattr(mod, "prepare"):
            mod.prepare(tier=tier, seed=seed, lib=lib, scratch=scratch)
        if replay:
            cases = [json.load(open(replay))["case"]]
        else:
            cases = mod.cases(tier, seed)
            if only:
                cases = [c for c in cases if only in dumps(c)]
        tb = time.time() - t0
        lim = (t0 + 660, t0 + 800) if tier == "quick" and not replay else (None, None)
        recs = run_pool(mod, cases, getattr(mod, "CASE_TIMEOUT", 240), progress=verbose, nwork=getattr(mod, "NWORK", None), stop_at=lim[0], kill_at=lim[1])
        if hasattr(mod, "aggregate") and not replay:
            recs += mod.aggregate(recs, tier) or []
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)

    findings = load_findings(pid)
    events, maxerr, kf_hit, viol, skips, timeouts = {}, {}, {}, [], [], []
    keys = set()
    samples = []
    for r in recs:
        for k, v in r.get("events", {}).items():
            events[k] = events.get(k, 0) + v
        for k, v in r.get("maxerr", {}).items():
            maxerr[k] = max(maxerr.get(k, 0), v)
        if r["status"] == "skip":
            skips.append(r)
        elif r["status"] == "timeout":
            timeouts.append(r)
        if r["status"] in ("held", "violated") and sum(r.get("events", {}).values()) > 0:
            keys.add(case_key(r["case"]))
            if len(samples) < 6 and (not samples or r["case"].get("kind") not in [s["case"].get("kind") for s in samples]):
                samples.append({"case": r["case"], "observed": r.get("sample"), "events": r["events"]})
        left = []
        for b in r.get("bad", []):
            f = match_finding(findings, r["case"], b)
            if f:
                kf_hit.setdefault(f["id"], [f, 0])[1] += 1
            else:
                left.append(b)
        if left:
            viol.append((r, left))

    for fid, (f, n) in sorted(kf_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {f['what']} [{fid}; {n} observation(s) this run]")

    nrun = len(recs)
    lines = []
    for r, left in viol[:20]:
        rp = os.path.join(VERIF, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{pid}-{case_key(r['case'])}.json")
        with open(path, "w") as fh:
            fh.write(dumps({"property": pid, "case": r["case"], "violations": left,
                            "replay_cmd": f"/verif/check {pid} --replay {path}"}, indent=1))
        lines.append(f"VIOLATION property={pid} replay={path}")
        for b in left[:3]:
            print(f"  {pid} {b['monitor']}: {b['message'][:400]}")
            if verbose and b.get("detail"):
                print(b["detail"])

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": nrun,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples,
            "monitor_events": dict(sorted(events.items())),
            "worst_error_over_tolerance": {k: round(v, 4) for k, v in sorted(maxerr.items())},
            "inconclusive_cases": len(skips) + len(timeouts),
            "known_findings_observed": {k: v[1] for k, v in kf_hit.items()},
            "build_s": round(tb, 1),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not replay and not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
            fh.write(dumps(ev, indent=1))
    print(f"{pid} tier={tier} seed={seed}: {nrun} cases, {len(keys)} distinct non-trivial, "
          f"{sum(events.values())} monitor evaluations, {len(skips)} skipped, {len(timeouts)} timed out, "
          f"{len(viol)} violating, {time.time()-t0:.1f} s")
    if skips and verbose:
        for r in skips[:5]:
            print("  skip:", r.get("why"), dumps(r["case"])[:200], r.get("trace", ""))
    if verbose:
        slow = sorted([r for r in recs if r.get("t")], key=lambda r: -r["t"])[:5]
        for r in slow:
            print("  slow:", r["t"], dumps(r["case"])[:160])
        for k, v in sorted(maxerr.items(), key=lambda kv: -kv[1])[:12]:
            print(f"  worst {k}: {v:.3g} of tolerance")
        print("  events:", events)
    if lines:
        for ln in lines:
            print(ln)
        sys.stdout.flush()
        return 1
    need = getattr(mod, "REQUIRED", [])
    missing = [k for k in need if events.get(k, 0) == 0]
    if replay or only:
        return 0
    if missing:
        print(f"INCONCLUSIVE: monitors never reached: {missing}")
        for r in (skips + timeouts)[:3]:
            print("  ", r.get("why"), dumps(r["case"])[:200], r.get("trace", ""))
        return 2
    if len(skips) + len(timeouts) > getattr(mod, "MAX_SKIP", 0.4) * nrun:
        print("INCONCLUSIVE: too many cases could not be judged")
        for r in (skips + timeouts)[:5]:
            print("  ", r.get("why"), dumps(r["case"])[:200], r.get("trace", ""))
        return 2
    return 0
