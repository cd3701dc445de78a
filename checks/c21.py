"""Significance of terms: bias-corrected edf, p-values of smooths, printed summaries."""
import contextlib
import io
import re

import numpy as np
import scipy.stats as st

from checks.c11 import imhof
from vlib import fit_ref as F
from vlib import lss_ref as L

RULE = ("random fitted GAMMs, GAMMLSS and general models with weak and strong effects (penalised, unpenalised, by-factor, tensor and binary smooths, factor smooths, random terms, dropped and extra coefficients), "
        "fitted once or twice; non-trivial = a p-value, corrected edf or printed line was compared with an independent computation")
ASSUMPTIONS = ["the stated test (Wood, 2013: rank-r pseudo inverse, averaged over the two choices of eigenvector signs) is the specification", "p-values are compared at 2e-4 + 2%",
               "statistics are compared where the eigenvalues concerned are distinct"]
REQUIRED = {"edf1": 60, "p_F": 20, "p_chi2": 20, "stat": 60, "p_mid": 25, "print_par": 60, "print_smooth": 60, "refit": 4, "unpen": 4, "approx": 6, "big": 1, "p_range": 60, "dropped": 2}
CASE_TIMEOUT = 300


def cases(tier, seed):
    rng = np.random.default_rng([21, seed])
    q = tier == "quick"
    out = []
    for k in range(96 if q else 1500):
        c = {"model": "gamm", "seed": int(rng.integers(2**31)), "fam": F.FAMS[k % 8], "method": str(rng.choice(["QR", "Chol"])), "weak": float(rng.choice([0.0, 0.15, 0.3, 1.0]))}
        j = (k // 8) % 6
        if j == 1:
            c["refit"] = True
        if j == 2:
            c["unpen"] = True
        if j == 3:
            c["approx"] = True
        if j == 4 and k % 8 == 0:
            c["ar"] = "one"
        if j == 5 and k % 2:
            c["dup"] = True
            c["method"] = "QR"
        out.append(c)
    kinds = ["gaum", "gammals", "mulnom", "g_gaum", "cox", "gaumlog", "g_mulnom", "cox"]
    for k in range(32 if q else 400):
        c = {"model": "lss", "kind": kinds[k % 8], "seed": int(rng.integers(2**31)), "method": "QR/Chol", "weak": float(rng.choice([0.0, 0.3, 1.0])), "na": bool(k % 3 == 0)}
        if k // 8 == 1:
            c["refit"] = True
        if k // 8 == 2:
            c["dup"] = True
        out.append(c)
    for k in range(2 if q else 12):
        out.append({"model": "lss", "kind": "mvn", "seed": int(rng.integers(2**31)), "n": 300, "method": "QR/Chol"})
    out.append({"model": "big", "seed": int(rng.integers(2**31))})
    return out


def capture(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f()
    return [a for a in buf.getvalue().split("\n") if a.strip()]


def dense(a):
    return a.toarray() if hasattr(a, "toarray") else np.asarray(a)


def test(X, V, b, r, twopar, rs):
    """(p, statistic) of H0: X b = 0 with effective rank r; None if the eigenvalues concerned are not distinct."""
    R = np.linalg.qr(X, mode="r")
    w, U = np.linalg.eigh(R @ V @ R.T)
    w, U = w[::-1], U[:, ::-1]
    k = int(r)
    v = r - k
    z = U.T @ (R @ b)
    if k >= len(w) and v > 0:
        k, v = len(w), 0.0
    if k == 0:
        return 1.0, -1.0, [-1.0]
    need = k if v == 0 else k + 1
    if w[need - 1] < 1e-10 * w[0]:
        return None
    g = [(w[i] - w[i + 1]) / w[i] for i in range(max(0, k - 2), min(need, len(w) - 1))]
    if g and min(g) < 1e-5:
        return None
    if v == 0:
        T = float((z[:k] ** 2 / w[:k]).sum())
        if twopar:
            return st.f.sf(T / k, k, rs), T / k, [T / k]
        return st.chi2.sf(T, k), T, [T]
    base = float((z[:k - 1] ** 2 / w[:k - 1]).sum())
    a, c = z[k - 1] / np.sqrt(w[k - 1]), z[k] / np.sqrt(w[k])
    q = np.sqrt(v * (1 - v) / 2)
    v1 = (v + 1 + np.sqrt(1 - v * v)) / 2
    v2 = v + 1 - v1
    lb, df = ([1.0] if k > 1 else []) + [v1, v2], ([k - 1] if k > 1 else []) + [1, 1]
    ps, Ts = [], []
    for s in (1, -1):
        T = base + a * a + v * c * c + 2 * s * q * a * c
        if twopar:
            p = imhof(lb + [-T / rs], df + [rs], [0] * (len(df) + 1), 0.0, 0.0)[0]
        else:
            p = imhof(lb, df, [0] * len(df), 0.0, T)[0]
        if p is None:
            return None
        ps.append(1 - p)
        Ts.append(T / r if twopar else T)
    return float(np.mean(ps)), max(Ts), Ts


def blocks(spec, form):
    """(term, coefficients, tested) in the order in which smooth and random terms are listed."""
    out = []
    lv = form.get_factor_levels()
    for kinds in (("f", "fs"), ("ri", "rs")):
        for ti, t in enumerate(spec):
            if t["k"] not in kinds:
                continue
            ix = np.asarray(form.coef_idx_per_term[ti])
            nl = 1
            if t["k"] == "f" and t.get("by") and t.get("id") is None:
                nl = len(lv[t["by"]])
            if t["k"] == "rs" and t.get("by"):
                nl = len(lv[t["by"]])
            for part in np.split(ix, nl):
                out.append((t, part, t["k"] == "f"))
    return out


def run_case(c, ctx):
    if c["model"] == "big":
        return big(c, ctx)
    if c["model"] == "gamm":
        P = F.problem(c)
        if c.get("unpen"):
            k = next((i for i, t in enumerate(P.spec) if t["k"] == "f" and not t.get("te") and not t.get("penalize_null")), None)
            free = [v for v in ("x0", "x1", "x2", "x3") if not any(v in t.get("v", []) for t in P.spec)]
            t = {"k": "f", "v": [free[0] if free else "z"], "nk": 5, "is_penalized": False}
            j = next((i for i, u in enumerate(P.spec) if u["k"] in ("f", "fs")), len(P.spec))
            P.spec = P.spec[:j] + [t] + P.spec[j:]
            ctx.seen("unpen")
        m = F.fit(P)
        specs, kw = [P.spec], P.kw
    else:
        P = L.problem(c)
        m = L.fit(P)
        specs, kw = P.specs, P.kw
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    if c.get("refit"):
        from mssm.src.python.utils import compute_bias_corrected_edf
        compute_bias_corrected_edf(m)
        old = m.edf
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit(progress_bar=False, n_cores=1, **{**kw, "max_outer": 1})
    judge(c, P, m, specs, ctx)


def judge(c, P, m, specs, ctx):
    from mssm.src.python.utils import approx_smooth_p_values, compute_bias_corrected_edf

    gamm = c["model"] == "gamm"
    coef = np.asarray(m.coef, float).ravel()
    if not np.isfinite(coef).all():
        ctx.skip("no fit")
    p = len(coef)
    lvi = dense(m.lvi)
    phi = float(m.scale)
    V0 = lvi.T @ lvi
    A = V0 @ (-dense(m.hessian) * phi)
    if c.get("refit"):  # a fit stopped early may report weights of another step
        S = sum((t.lam * t.S_J_emb.toarray() for t in m.overall_penalties), np.zeros((p, p)))
        if np.abs(V0 @ (-dense(m.hessian) * phi + S) - np.eye(p)).max() > 1e-4:
            ctx.skip("fit stopped early")
        ctx.seen("refit")
    d = [] if m.info.dropped is None else [int(a) for a in m.info.dropped]
    if d:
        ctx.seen("dropped")
    mats = m.get_mmat()
    mats = [dense(a) for a in (mats if isinstance(mats, list) else [mats])]
    twopar = gamm and P.fam in ("gauss", "gausslog", "gamma", "invgauss")
    compute_bias_corrected_edf(m)
    lo = 0
    whole_par, whole_sm = [], []
    E1 = 2 * np.diag(A) - np.einsum("ij,ji->i", A, A)
    E1[d] = 0
    E0 = np.diag(A).copy()
    E0[d] = 0
    sc = 1e-6 * (1 + np.abs(A).max())
    ctx.close("edf1_total", float(m.edf1), E1.sum(), rtol=1e-6, atol=max(1e-4, sc), msg=f"total corrected edf ({c['model']}, dropped {d})")
    for k, (spec, X) in enumerate(zip(specs, mats)):
        form = m.formulas[k]
        kwp = {} if gamm else {"par": k}
        B = blocks(spec, form)
        q = X.shape[1]
        e1 = [min(float(E1[lo + ix].sum()), len(ix)) for _, ix, _ in B]
        e0 = [float(E0[lo + ix].sum()) for _, ix, _ in B]
        # p-values
        res, alt = {}, {}
        for use1 in (True, False):
            ps, Ts = approx_smooth_p_values(m, edf1=use1, **kwp)
            tested = [i for i, b in enumerate(B) if b[2]]
            if not ctx.ok("count", len(ps) == len(Ts) == len(tested), f"{len(ps)} p-values of {len(tested)} smooths"):
                return
            res[use1] = (ps, Ts)
            for j, i in enumerate(tested):
                t, ix, _ = B[i]
                r = e1[i] if use1 else min(e0[i], len(ix))
                unp = t.get("is_penalized") is False
                if unp:
                    r = float(len(ix))
                ctx.seen("p_range")
                ctx.ok("p_range", -1e-9 <= ps[j] <= 1 + 1e-9, f"p-value {ps[j]} of term {t}")
                if min(r % 1, 1 - r % 1) < 1e-4 and not unp:
                    if r < 1 - 1e-3 or any(a in d for a in lo + ix):
                        pass
                    continue
                if any(a in d for a in lo + ix):
                    continue
                V = V0[np.ix_(lo + ix, lo + ix)] * phi
                out = test(X[:, ix], V, coef[lo + ix], r, twopar, X.shape[0] - float(m.edf))
                if out is None:
                    continue
                pr, T, both = out
                if use1:
                    alt[j] = both
                ctx.close("stat", float(Ts[j]), T, rtol=2e-3, atol=2e-3, msg=f"statistic of term {t}, r={r:.4f}")
                key = "p_F" if twopar else "p_chi2"
                ctx.close(key, float(ps[j]), pr, rtol=0.02, atol=2e-4, msg=f"p-value of term {t}, statistic {T:.4f}, r={r:.4f}")
                if 1e-3 < pr < 0.95:
                    ctx.seen("p_mid")
        ctx.seen("edf1")
        pen = [i for i, b in enumerate(B) if b[0].get("is_penalized") is not False]
        if gamm and not d:
            ctx.close("edf1", np.asarray(m.term_edf1, float), [float(E1[lo + B[i][1]].sum()) for i in pen], rtol=1e-5, atol=max(1e-4, sc), msg="corrected edf per term")
        ps, Ts = res[True]
        # the approximation that replaces the exact distribution
        if c.get("approx"):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pa, Ta = approx_smooth_p_values(m, force_approx=True, **kwp)
            for j, i in enumerate(tested):
                r = e1[i]
                if r < 1 or len(alt.get(j, [])) != 2:
                    continue
                ctx.seen("approx")
                ctx.close("approx_stat", float(Ta[j]), float(Ts[j]), rtol=1e-9, atol=1e-9, msg="statistic with the approximate distribution")
                rs_ = X.shape[0] - float(m.edf)
                far = np.mean([st.f.sf(a, r, rs_) if twopar else st.chi2.sf(a, r) for a in alt[j]])
                ctx.close("approx", float(pa[j]), far, rtol=0.01, atol=1e-3, msg=f"approximate p-value, statistics {alt[j]}, r={r:.4f}")
        # printed summaries
        from mssm.src.python.utils import print_parametric_terms, print_smooth_terms
        lines = capture(lambda: print_parametric_terms(m, par=k))
        lin = [ti for ti, t in enumerate(spec) if t["k"] in ("i", "l")]
        ix = np.concatenate([form.coef_idx_per_term[ti] for ti in lin]).astype(int) if lin else np.zeros(0, int)
        rows = [a for a in lines if "P(|" in a]
        if ctx.ok("print_par_count", len(rows) == len(ix), f"{len(rows)} lines for {len(ix)} coefficients"):
            for a, i_ in zip(rows, ix):
                if lo + i_ in d:
                    continue
                ctx.seen("print_par")
                mt = re.match(r"^(.*?): (\S+), ([tz]): (\S+), (?:DoF\.: (\d+), )?P\(.*\): (\S+)( [*.]+)?$", a)
                if not ctx.ok("print_par", mt is not None and mt.group(3) == ("t" if twopar else "z"), f"line {a!r}"):
                    continue
                se = np.sqrt(V0[lo + i_, lo + i_] * phi)
                tt = coef[lo + i_] / se
                ctx.close("print_par", float(mt.group(2)), coef[lo + i_], rtol=0, atol=6e-4, msg=f"coefficient of {mt.group(1)}")
                ctx.close("print_par", float(mt.group(4)), tt, rtol=1e-6, atol=6e-4, msg=f"statistic of {mt.group(1)}")
                pv = 2 * (st.t.sf(abs(tt), int(mt.group(5))) if twopar else st.norm.sf(abs(tt)))
                ctx.close("print_par", float(mt.group(6)), pv, rtol=2e-3, atol=1e-5, msg=f"p-value of {mt.group(1)}")
                stars(ctx, pv, mt.group(7), a)
                ctx.ok("print_names", mt.group(1) == form.coef_names[i_], f"line {a!r} of coefficient {form.coef_names[i_]}")
                if twopar:
                    ctx.ok("print_dof", int(mt.group(5)) == X.shape[0] - X.shape[1], f"line {a!r}: {X.shape[0]} rows, {X.shape[1]} coefficients")
        whole_par += ["", f"Distribution parameter: {k + 1}", "", *lines]
        lines = capture(lambda: print_smooth_terms(m, par=k, ps=ps, Trs=Ts))
        whole_sm += ["", f"Distribution parameter: {k + 1}", "", *lines]
        rows = [a for a in lines if "edf:" in a]
        if ctx.ok("print_smooth_count", len(rows) == len(B), f"{len(rows)} lines for {len(B)} terms"):
            j = 0
            for a, (t, ix_, tst), e in zip(rows, B, e0):
                ctx.seen("print_smooth")
                if any(q_ in d for q_ in lo + ix_):
                    j += tst
                    continue
                ctx.close("print_smooth", float(re.search(r"edf: (\S+)", a).group(1)), e, rtol=1e-5, atol=1e-3, msg=f"printed edf of {t}")
                if abs(e - 0.2) > 2e-3 and t["k"] not in ("ri", "rs"):
                    ctx.ok("print_removed", (re.search(r"edf: \S+ \*( |$)", a) is not None) == (e < 0.2), f"mark of removed terms, line {a!r}")
                if tst:
                    mt = re.search(r"(f|chi\^2): (\S+) P\(.*\) = (\S+)", a)
                    if ctx.ok("print_smooth_p", mt is not None and (mt.group(1) == "f") == twopar, f"line {a!r}"):
                        stars(ctx, ps[j], (re.search(r"= \S+( [*.]+)?$", a) or [None, None])[1], a)
                        ctx.close("print_smooth_p", [float(mt.group(2)), float(mt.group(3))], [Ts[j], ps[j]], rtol=1e-3, atol=6e-4, msg=f"printed test of {t}")
                    j += 1
        lo += q
    strip = lambda L: [a.strip() for a in L if a.strip()]  # noqa: E731
    got = strip(capture(lambda: m.print_parametric_terms()))
    ctx.ok("print_model", [a for a in got if "P(|" in a] == [a for a in strip(whole_par) if "P(|" in a], "summary of the parametric terms of the model is not that of its parameters in turn")
    got = strip(capture(lambda: m.print_smooth_terms(p_values=True)))
    ctx.ok("print_model", [a for a in got if "edf:" in a] == [a for a in strip(whole_sm) if "edf:" in a], "summary of the smooth terms of the model is not that of its parameters in turn")
    ctx.sample = {"model": c["model"], "terms": sum(len(s) for s in specs), "dropped": len(d)}


def stars(ctx, pv, mark, line):
    cut = [0.001, 0.01, 0.05, 0.1]
    if min(abs(pv - a) / a for a in cut) < 1e-2:
        return
    want = "***" if pv < 0.001 else "**" if pv < 0.01 else "*" if pv < 0.05 else "." if pv < 0.1 else None
    ctx.ok("stars", (mark or "").strip() == (want or ""), f"mark of {line!r} for p={pv:.4g}")


def big(c, ctx):
    """More observations than the test uses."""
    import pandas as pd

    from mssm.models import GAMM, Formula, Gaussian, f, i, lhs
    from mssm.src.python.utils import approx_smooth_p_values

    rng = np.random.default_rng(c["seed"])
    n = 100300
    df = pd.DataFrame({"x0": rng.random(n), "x1": rng.random(n)})
    df["y"] = 0.02 * np.sin(5 * df["x0"]) + rng.normal(0, 1, n)
    m = GAMM(Formula(lhs("y"), [i(), f(["x0"], nk=6), f(["x1"], nk=6)], df, print_warn=False), Gaussian())
    m.fit(progress_bar=False, n_cores=1)
    ctx.seen("big")
    a = approx_smooth_p_values(m)
    b = approx_smooth_p_values(m)
    ctx.ok("big", a == b and all(0 <= p <= 1 for p in a[0]), f"p-values {a[0]} and {b[0]} of the same seed")
    full = approx_smooth_p_values(m, n_sel=10**6)
    few = approx_smooth_p_values(m, n_sel=5000, seed=3)
    ctx.close("big_sub", few[1], full[1], rtol=0.25, atol=0.3, msg="statistics from a sub-set of the rows")
    ctx.close("big_sub", a[1], full[1], rtol=0.02, atol=0.02, msg="statistics from nearly all rows")
    ctx.sample = {"model": "big"}
