"""Predictions, intervals, differences and posterior samples of fitted GAMMs."""
import numpy as np
import pandas as pd
import scipy.stats as st

from vlib import fit_ref as F
from vlib import gam_ref as G

RULE = ("random fitted models x new data sets (training rows, sub-sets, single rows, single levels, new covariate values in range, other columns and row orders), term sub-sets, alphas, "
        "pairs of data sets; non-trivial = predictions, intervals and samples of a fitted model were compared with dense recomputations")
ASSUMPTIONS = ["new covariate values lie in the range of the fitted data and factor levels are known",
               "whole-function intervals and samples are judged statistically"]
REQUIRED = ["train", "local", "new", "terms", "ci", "diff", "diff_ci", "whole", "whole_diff", "whole_zero_sum", "whole_zero_row", "post_mean", "post_cov", "post_sub", "seed", "pure", "missing", "mvn"]
CASE_TIMEOUT = 240


def cases(tier, seed):
    rng = np.random.default_rng([14, seed])
    out = []
    for k in range(90 if tier == "quick" else 1500):
        c = {"seed": int(rng.integers(2**31)), "fam": F.FAMS[k % 8], "method": str(rng.choice(["QR", "Chol"]))}
        if k % 7 == 3:
            c["offset"] = str(rng.choice(["scalar", "array"]))
        if k % 9 == 5:
            c["fam"], c["ar"] = "gauss", "one"
        out.append(c)
    for k in range(8 if tier == "quick" else 80):
        out.append({"mvn": True, "seed": int(rng.integers(2**31)), "p": int(rng.integers(2, 30)), "arg": ["L", "LI", "LIP", "use"][k % 4], "zero": bool(k >= 4)})
    return out


def mvn(c, ctx):
    """Samples from a factor of a precision matrix."""
    import scipy.sparse as sp
    from mssm.src.python.matrix_solvers import cpp_cholP
    from mssm.src.python.utils import sample_MVN
    rng = np.random.default_rng(c["seed"])
    p = c["p"]
    M = rng.normal(size=(p, p)) * (rng.random((p, p)) < 0.3) + np.diag(rng.uniform(0.5, 2, p))
    A = M @ M.T
    Lp, Pr, code = cpp_cholP(sp.csc_array(A))
    ctx.ok("mvn_chol", code == 0, "no factor of a positive definite matrix")
    Lp = sp.csc_array(Lp)
    Pm = sp.csc_array((np.ones(p), (np.asarray(Pr), np.arange(p))), shape=(p, p))
    if np.abs((Pm.T @ Lp @ Lp.T @ Pm).toarray() - A).max() > 1e-8 * np.abs(A).max():
        Pm = Pm.T.tocsc()
    ctx.close("mvn_chol", (Pm.T @ Lp @ Lp.T @ Pm).toarray(), A, 1e-9, 1e-9, "factor of the permuted matrix")
    phi = float(rng.choice([1.0, 0.04, 9.0]))
    mu = 0 if c["zero"] else rng.normal(size=p) * 5
    V = np.linalg.inv(A) * phi
    LI = sp.csc_array(np.linalg.inv(Lp.toarray()))
    n, seed = 6000, int(rng.integers(10000))
    use = None
    if c["arg"] == "L":
        args = (Pm, Lp, None)
    elif c["arg"] == "LIP":
        args = (Pm, None, LI)
    else:
        args = (None, None, sp.csc_array(LI @ Pm))
        if c["arg"] == "use":
            use = np.sort(rng.choice(p, size=int(rng.integers(1, p + 1)), replace=False))
    x = np.asarray(sample_MVN(n, mu, phi, *args, use=use, seed=seed))
    u = np.arange(p) if use is None else use
    if not ctx.ok("mvn", x.shape == (len(u), n), f"samples of shape {x.shape} for {len(u)} parameters"):
        return
    judge_post(ctx, x - (0 if c["zero"] else mu[u, None]), V[np.ix_(u, u)], f"samples given {c['arg']}")
    ctx.ok("mvn", (x == np.asarray(sample_MVN(n, mu, phi, *args, use=use, seed=seed))).all(), "the same seed gives other samples")
    ctx.ok("mvn", (x != np.asarray(sample_MVN(n, mu, phi, *args, use=use, seed=seed + 1))).any(), "another seed gives the same samples")


def term_raw(e, spec, df, levels):
    """Raw columns of a term of the reference layout for other data."""
    t = e["t"]
    if "ref" in e:
        R = e["ref"].raw(df)
        return np.hstack([w[:, None] * R for w in e["ref"].blocks(df, levels)])
    if t["k"] == "i":
        return np.ones((len(df), 1))
    if t["k"] == "l":
        const = any(u["k"] == "i" for u in spec) or any(v in levels for u in spec[:e["ti"]] if u["k"] == "l" for v in u["v"])
        return G.linear_cols(t["v"], df, const, levels)[0]
    X, _ = G.linear_cols(t["v"], df, False, levels)
    if t.get("by"):
        X = np.hstack([X * (df[t["by"]].to_numpy() == a)[:, None] for a in levels[t["by"]]])
    return X


def whole_factor(rng, X, V, alpha, n=4000):
    """Critical factor a of the band a*b by simulation, with its Monte Carlo error."""
    w, U = np.linalg.eigh(V)
    L = U * np.sqrt(np.maximum(w, 0))
    sd = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", X, V, X), 0))
    k = sd > 1e-9 * max(sd.max(), 1e-300)
    Z = np.abs(X[k] @ (L @ rng.normal(size=(len(V), n)))) / sd[k, None]
    q = np.sort(Z.max(axis=0))
    a = q[int((1 - alpha) * n)]
    lo, hi = [q[min(n - 1, max(0, int((1 - alpha) * n + s * 5 * np.sqrt(alpha * (1 - alpha) * n))))] for s in (-1, 1)]
    z = st.norm.ppf(1 - alpha / 2)
    return a / z, lo / z, hi / z


def new_data(rng, d, n):
    nd = pd.DataFrame({v: rng.uniform(d[v].min(), d[v].max(), n) for v in ("x0", "x1", "x2", "x3", "z")})
    for v in ("x0", "x1", "x2", "x3"):
        nd.loc[0, v] = d[v].min()
        nd.loc[1, v] = d[v].max()
    for v in ("fac", "grp", "bin"):
        lv = sorted(set(d[v]))
        nd[v] = rng.choice(lv, n)
    return nd


def run_case(c, ctx):
    if c.get("mvn"):
        return mvn(c, ctx)
    P = F.problem(c)
    m = F.fit(P)
    if m.coef is None or not np.isfinite(np.asarray(m.coef)).all():
        ctx.skip("no fit")
    d, spec = P.df, P.spec
    rng = np.random.default_rng(c["seed"] + 5)
    levels = {v: sorted(set(d[v])) for v in ("fac", "grp", "bin")}
    lims = {v: (d[v].min(), d[v].max()) for v in ("x0", "x1", "x2", "x3")}
    coef = np.asarray(m.coef, float).ravel()
    V = (m.lvi.T @ m.lvi).toarray() * float(m.scale)
    before = [coef.copy(), V.copy(), np.asarray(m.preds[0]).copy(), d.copy()]

    # training data
    e, X, ci = m.predict(None, d)
    X = X.toarray()
    ctx.seen("train")
    ctx.ok("train_none", ci is None, "an interval is returned without being asked for")
    if m.info.code == 0:
        ctx.close("train", np.asarray(e).ravel()[P.used] + F.off(P), np.asarray(m.preds[0]).ravel(), 1e-7, 1e-7, "prediction for the fitted data and stored linear predictor", scale=True)
    ctx.close("train", np.asarray(e).ravel(), X @ coef, 1e-9, 1e-9, "prediction is not the returned matrix times the coefficients", scale=True)
    ctx.close("train_X", X[P.used], m.get_mmat().toarray(), 1e-10, 1e-10, "returned matrix and model matrix")

    # rows only depend on themselves
    for kind in ("perm", "few", "one", "level"):
        if kind == "perm":
            ix = rng.permutation(len(d))
        elif kind == "few":
            ix = rng.integers(0, len(d), 7)
        elif kind == "one":
            ix = rng.integers(0, len(d), 1)
        else:
            ix = np.where(d["fac"] == rng.choice(levels["fac"]))[0][:20]
        nd = d.iloc[ix][list(rng.permutation([a for a in d.columns if a not in ("y", "eta")]))].copy()
        if kind != "perm":
            nd.index = rng.permutation(len(nd)) + 5
            nd["zzz"] = "u"
        keep = nd.copy()
        e2, X2, b2 = m.predict(None, nd, ci=True)
        ctx.seen("local")
        ctx.close("local", X2.toarray(), X[ix], 1e-10, 1e-10, f"matrix for {kind} rows of the data")
        ctx.close("local", np.asarray(e2).ravel(), np.asarray(e).ravel()[ix], 1e-9, 1e-9, f"prediction for {kind} rows of the data", scale=True)
        ctx.ok("pure", nd.equals(keep) and list(nd.columns) == list(keep.columns), "the new data were changed")

    # new covariate values
    nd = new_data(rng, d, 60)
    if P.series:
        nd["series"] = d["series"].iloc[0]
    en, Xn, bn = m.predict(None, nd, ci=True)
    Xn = Xn.toarray()
    lay = G.layout(spec, d, np.ones(len(d), bool), levels, lims)
    ci_ = m.formulas[0].coef_idx_per_term
    for en_ in lay:
        R, Rn = term_raw(en_, spec, d, levels), term_raw(en_, spec, nd, levels)
        cols = np.asarray(ci_[en_["ti"]])
        U, s, Vt = np.linalg.svd(R, full_matrices=False)
        k = s > 1e-9 * s[0]
        proj = Rn - Rn @ Vt[k].T @ Vt[k]
        rows = np.abs(proj).max(axis=1) < 1e-8
        M = Vt[k].T @ ((U[:, k].T @ X[:, cols]) / s[k, None])
        if np.abs(R @ M - X[:, cols]).max() > 1e-6 * (1 + np.abs(X[:, cols]).max()):
            ctx.fail("new_span", f"term {en_['t']}: columns for the fitted data are not of the stated kind")
            continue
        if rows.any():
            ctx.seen("new")
            ctx.close("new", Xn[rows][:, cols], (Rn @ M)[rows], 1e-6, 1e-6 * (1 + np.abs(X[:, cols]).max()), f"columns for new data of term {en_['t']}")

    # terms
    nt = len(spec)
    tot = 0
    for ti in range(nt):
        et, Xt, bt = m.predict([ti], nd, ci=True)
        Xt = Xt.toarray()
        W = np.zeros_like(Xn)
        W[:, ci_[ti]] = Xn[:, ci_[ti]]
        ctx.seen("terms")
        ctx.close("terms", Xt, W, 1e-10, 1e-10, f"matrix for term {ti} only")
        ctx.close("terms_ci", bt, 1.959963984540054 * np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", W, V, W), 0)), 1e-5, 1e-7, f"interval of term {ti}")
        tot = tot + np.asarray(et).ravel()
    ctx.close("terms_sum", tot, np.asarray(en).ravel(), 1e-8, 1e-8, "sum over the terms", scale=True)
    sub = [int(q) for q in rng.permutation(nt)[: max(1, nt // 2)]]
    es, Xs, bs = m.predict(sub, nd, ci=True, alpha=0.2)
    Xs = Xs.toarray()
    W = np.zeros_like(Xn)
    for q in sub:
        W[:, ci_[q]] = Xn[:, ci_[q]]
    ctx.close("terms", Xs, W, 1e-10, 1e-10, f"matrix for terms {sub}")

    # intervals
    for al in (0.05, 0.2, 0.01, 2 * (1 - st.norm.cdf(1))):
        _, _, b = m.predict(None, nd, ci=True, alpha=al)
        ctx.seen("ci")
        ctx.close("ci", b, st.norm.ppf(1 - al / 2) * np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", Xn, V, Xn), 0)), 1e-5, 1e-8, f"interval alpha={al}")
    # differences
    nd2 = new_data(rng, d, 60)
    if rng.random() < 0.5:
        nd2 = nd.copy()
        nd2["fac"] = nd["fac"].map(dict(zip(levels["fac"], levels["fac"][1:] + levels["fac"][:1])))
    if P.series:
        nd2["series"] = d["series"].iloc[0]
    use = None if rng.random() < 0.4 else sub
    al = float(rng.choice([0.05, 0.1, 0.3]))
    df_, b = m.predict_diff(nd, nd2, use, alpha=al)
    X1, X2 = m.predict(use, nd)[1].toarray(), m.predict(use, nd2)[1].toarray()
    D = X1 - X2
    ctx.seen("diff")
    ctx.seen("diff_ci")
    ctx.close("diff", np.asarray(df_).ravel(), D @ coef, 1e-8, 1e-8, "difference of predictions", scale=True)
    sd = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", D, V, D), 0))
    ctx.close("diff_ci", b, st.norm.ppf(1 - al / 2) * sd, 1e-5, 1e-7 * (1 + sd.max()), "interval of the difference")

    # whole-function intervals
    sd_ok = np.linalg.eigvalsh(V)[0] > -1e-10
    k = int(c["seed"] % 3)
    sm = [q for q in range(nt) if spec[q]["k"] in ("f", "fs")]
    if sd_ok:
        use = [None, [int(rng.choice(sm))] if sm else None, sub][k]
        al = float(rng.choice([0.05, 0.1, 0.25]))
        judge_whole(ctx, rng, m, V, use, nd, None, al, "whole")
        judge_whole(ctx, rng, m, V, use, nd, nd2, al, "whole_diff")
        if sm and k == 1:  # every column of the difference sums to zero
            judge_whole(ctx, rng, m, V, use, nd, nd.iloc[::-1].reset_index(drop=True), al, "whole_zero_sum")
        lz = [q for q in range(nt) if spec[q]["k"] == "l" and spec[q]["v"] == ["z"]]
        if lz:
            ns = nd.copy()
            ns["z"] = np.linspace(-1, 1, len(ns))
            judge_whole(ctx, rng, m, V, lz, ns, None, al, "whole_zero_sum")
        lf = [q for q in range(nt) if spec[q]["k"] == "l" and spec[q]["v"] == ["fac"]]
        if lf:
            judge_whole(ctx, rng, m, V, lf, nd, None, al, "whole_zero_row")

    # posterior samples
    n = 6000
    sample = m.sample_post(n, seed=int(c["seed"] % 1000))
    dev = m.sample_post(n, deviations=True, seed=int(c["seed"] % 1000))
    ctx.seen("seed")
    ctx.close("seed", np.asarray(sample), np.asarray(dev) + coef[:, None], 1e-9, 1e-9, "samples and deviations of the same seed", scale=True)
    ctx.ok("seed_same", np.array_equal(sample, m.sample_post(n, seed=int(c["seed"] % 1000))), "samples of the same seed differ")
    ctx.ok("seed_other", not np.array_equal(sample, m.sample_post(n, seed=int(c["seed"] % 1000) + 1)), "samples of different seeds agree")
    judge_post(ctx, sample - coef[:, None], V, "posterior")
    ix = np.sort(rng.permutation(len(coef))[: max(1, len(coef) // 3)])
    s2 = m.sample_post(n, use_post=ix, seed=3)
    ctx.seen("post_sub")
    if ctx.ok("post_sub", s2.shape == (len(ix), n), f"shape {s2.shape} of samples of {len(ix)} coefficients"):
        judge_post(ctx, s2 - coef[ix, None], V[np.ix_(ix, ix)], "posterior of some coefficients")

    # arguments
    ctx.seen("missing")
    v = next((t["v"][0] for t in spec if t["k"] != "i"), None)
    if v is not None:
        try:
            m.predict(None, nd.drop(columns=[v]))
            ctx.fail("missing", f"prediction without variable {v} did not raise")
        except (IndexError, KeyError):
            pass
    ctx.seen("pure")
    ctx.ok("pure", np.array_equal(before[0], np.asarray(m.coef).ravel()) and np.array_equal(before[2], np.asarray(m.preds[0])) and before[3].equals(d)
           and np.array_equal(before[1], (m.lvi.T @ m.lvi).toarray() * float(m.scale)), "predicting changed the model or its data")
    ctx.sample = {"fam": P.fam, "terms": nt, "coef": len(coef)}


def judge_whole(ctx, rng, m, V, use, a, b, al, key, par=0, n_ps=4000):
    kw = {"par": par} if par else {}
    if b is None:
        _, X, pt = m.predict(use, a, ci=True, alpha=al, **kw)
        X = X.toarray()
        _, _, w = m.predict(use, a, ci=True, alpha=al, whole_interval=True, n_ps=n_ps, seed=int(rng.integers(1000)), **kw)
    else:
        X = (m.predict(use, a, **kw)[1] - m.predict(use, b, **kw)[1]).toarray()
        _, pt = m.predict_diff(a, b, use, alpha=al, **kw)
        _, w = m.predict_diff(a, b, use, alpha=al, whole_interval=True, n_ps=n_ps, seed=int(rng.integers(1000)), **kw)
    pt, w = np.asarray(pt, float), np.asarray(w, float)
    k = pt > 1e-7 * max(pt.max(), 1e-300)
    if not k.any() or np.abs(X).max() == 0:
        return
    if (pt[~k] > 0).any():  # rows whose interval is rounding only
        return
    ctx.seen(key)
    if not ctx.ok(key + "_finite", np.isfinite(w).all(), f"whole-function interval is not finite (terms {use})"):
        return
    r = w[k] / pt[k]
    ctx.close(key + "_ratio", r, r[0], 1e-6, 1e-6, f"whole-function interval is not a multiple of the point-wise one (terms {use})")
    est, lo, hi = whole_factor(rng, X, V, al, n=n_ps)
    _, lo2, hi2 = whole_factor(rng, X, V, al, n=n_ps)
    lo, hi = min(lo, lo2) * 0.985, max(hi, hi2) * 1.015
    ctx.ok(key + "_cover", lo <= r[0] <= hi, f"whole-function interval multiplies by {r[0]:.4f}, expected {est:.4f} in [{lo:.4f}, {hi:.4f}] (terms {use}, alpha {al})")


def judge_post(ctx, dev, V, msg):
    """Mean and covariance of samples, in units of their errors."""
    n = dev.shape[1]
    sd = np.sqrt(np.diag(V))
    k = sd > 1e-9 * max(sd.max(), 1e-300)
    ctx.seen("post_mean")
    ctx.seen("post_cov")
    if not ctx.ok("post_zero", np.abs(dev[~k]).max(initial=0) < 1e-6 * (1 + sd.max()), f"{msg}: samples of fixed coefficients vary"):
        return
    z = dev[k] / sd[k, None]
    C = V[np.ix_(k, k)] / np.outer(sd[k], sd[k])
    ctx.close("post_mean", z.mean(axis=1) * np.sqrt(n), 0, 0, 6, f"{msg}: mean of the samples (in standard errors)")
    E = z @ z.T / n
    ctx.close("post_cov", (E - C) / np.sqrt((1 + C**2) / n), 0, 0, 6.5, f"{msg}: covariance of the samples (in standard errors)")
    # whitened: independent of how strongly the coefficients are correlated
    w, U = np.linalg.eigh(C)
    j = w > 1e-8
    q = (U[:, j].T @ z) / np.sqrt(w[j])[:, None]
    ctx.close("post_cov", (q @ q.T / n - np.eye(j.sum())) / np.sqrt((1 + np.eye(j.sum())) / n), 0, 0, 6.5, f"{msg}: whitened covariance of the samples (in standard errors)")
