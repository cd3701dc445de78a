"""What fitted GAMMLSS and GSMMs report: covariance, edf, likelihoods, residuals, predictions per parameter."""
import numpy as np
import scipy.stats as st

from checks import c14
from checks.c07 import unit_dev
from checks.c16 import pseudo_logdet
from vlib import gam_ref as G
from vlib import lss_ref as L

RULE = ("random converged models of one or several parameters (normal, Gamma and multinomial location-scale models, proportional hazards, multivariate normal, GAMM families as general models) with missing responses, "
        "collinear columns, empty levels, solvers; non-trivial = reported quantities and predictions of every parameter were compared with dense recomputations")
ASSUMPTIONS = ["models that do not report convergence are not judged", "the Hessian is the one the family's derivatives imply (expected ones for the normal and Gamma location-scale models)",
               "quasi-Newton fits (whose Hessian is an approximation) are judged by their own Hessian", "the additive constant of the REML score is not judged for models of several parameters",
               "whole-function intervals and samples are judged statistically"]
REQUIRED = {"hessian": 25, "cov": 30, "edf": 30, "term_edf": 20, "llk": 30, "llk_pen": 30, "reml": 12, "resid": 15, "pars": 60, "ys": 30, "mmat": 60, "pred": 60, "pred_ci": 60, "pred_terms": 60, "diff": 60, "whole": 20, "post": 60, "dropped": 2, "par_check": 30,
            "pure": 30}
CASE_TIMEOUT = 400
METH = ["QR/Chol", "LU/Chol", "Direct/Chol", "Chol"]


def cases(tier, seed):
    rng = np.random.default_rng([20, seed])
    q = tier == "quick"
    fast = ["gaum", "gammals", "mulnom", "gaumlog", "g_gaum", "g_gammals", "g_mulnom", "cox"]
    out = []
    for k in range(56 if q else 800):
        c = {"kind": fast[k % 8], "seed": int(rng.integers(2**31)), "method": str(rng.choice(METH)), "na": bool(rng.random() < 0.4)}
        j = (k // 8) % 7
        if j == 1:
            c["nopen"] = True
        if j == 2:
            c["dup"] = True
            c["method"] = "QR/Chol"
        if j == 3 and c["kind"] != "cox":
            c["empty"] = True
        if j == 4:
            c["repara"] = False
        if c["kind"] == "cox":
            c["ties"] = bool(rng.random() < 0.5)
        out.append(c)
    for k in range(5 if q else 60):
        out.append({"kind": "mvn", "seed": int(rng.integers(2**31)), "n": 300, "method": "qEFS" if k % 2 else "QR/Chol"})
    for k in range(8 if q else 90):
        out.append({"kind": ["g_poisson", "g_binom", "g_gauss", "g_gamma", "g_t"][k % 5], "seed": int(rng.integers(2**31)), "n": 250, "method": str(rng.choice(METH)), "small": True, "na": bool(k % 2)})
    return out


def implied(P, m, X, bs, x):
    """Hessian of the log-likelihood as the family states it."""
    if P.fam in ("gaum", "gaumlog", "gammals"):
        from mssm.src.python.custom_types import DerivOrder
        F = L.family(P, False)
        etas = [a @ b for a, b in zip(X, bs)]
        mu = [np.asarray(F.links[j].fi(etas[j])).reshape(-1, 1) for j in range(2)]
        Y = P.y.reshape(-1, 1)
        d1 = [np.asarray(F.dpars(Y, *mu, index=j, order=DerivOrder.d1)).ravel() for j in range(2)]
        d2 = [np.asarray(F.dpars(Y, *mu, index=j, order=DerivOrder.d2)).ravel() for j in range(2)]
        dm = np.asarray(F.dpars(Y, *mu, index=0, order=DerivOrder.d2m)).ravel()
        a1 = [np.asarray(F.links[j].dy1(mu[j])).ravel() for j in range(2)]
        a2 = [np.asarray(F.links[j].dy2(mu[j])).ravel() for j in range(2)]
        e2 = [d2[j] / a1[j] ** 2 - d1[j] * a2[j] / a1[j] ** 3 for j in range(2)]
        em = dm / (a1[0] * a1[1])
        return np.block([[X[0].T @ (X[0] * e2[0][:, None]), X[0].T @ (X[1] * em[:, None])], [X[1].T @ (X[0] * em[:, None]), X[1].T @ (X[1] * e2[1][:, None])]])
    return L.score(P, m)[2]


def small(P):
    from checks.c19 import small as s
    s(P)


def run_case(c, ctx):
    P = L.problem(c)
    if c.get("small"):
        small(P)
    m = L.fit(P)
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    if P.fam == "t" and float(np.asarray(m.coef).ravel()[-1]) > 7:
        ctx.skip("no finite degrees of freedom")
    X, bs, x = L.mats(P, m)
    b = np.asarray(m.coef, float).ravel()
    p, n = len(b), len(P.y)
    S = L.total_S(m)
    d = L.dropped(m)
    keep = np.setdiff1d(np.arange(p), d)
    kk = np.ix_(keep, keep)
    qefs = P.kw.get("method") == "qEFS"
    Hr = -(m.hessian.toarray() if hasattr(m.hessian, "toarray") else np.asarray(m.hessian))
    slow = P.kind in ("g_poisson", "g_binom", "g_gauss", "g_gamma", "g_t")
    if d:
        ctx.seen("dropped")
    # the Hessian may be that of the step before the last one
    if not qefs:
        Hi = -implied(P, m, X, bs, x)
        sd = 1 / np.sqrt(np.abs(np.diag(Hi + S)) + 1e-300)
        ctx.close("hessian", (Hr * sd[:, None] * sd[None, :])[kk], (Hi * sd[:, None] * sd[None, :])[kk], rtol=0, atol=1e-2, msg=f"Hessian is the one the family implies, relative to the penalised information ({P.kind}, {P.kw})")
        ctx.sample = {"kind": P.kind, "herr": float(np.abs((Hr - Hi) * sd[:, None] * sd[None, :])[kk].max())}
    A = (Hr + S)[kk]
    D = 1 / np.sqrt(np.abs(np.diag(A)))
    Ac = A * D[:, None] * D[None, :]
    cond = np.linalg.cond(Ac)
    if cond > 1e9 or np.linalg.eigvalsh(Ac)[0] <= 0:
        ctx.skip("ill-conditioned")
    V = np.zeros((p, p))
    V[kk] = np.linalg.inv(Ac) * D[:, None] * D[None, :]
    lvi = m.lvi.toarray() if hasattr(m.lvi, "toarray") else np.asarray(m.lvi)
    C = lvi.T @ lvi
    sd = np.sqrt(np.maximum(np.diag(V), 0)) + 1e-300
    tolV = max(1e-6, 1e-12 * cond)
    ctx.close("cov", (C / sd[:, None] / sd[None, :])[kk], (V / sd[:, None] / sd[None, :])[kk], rtol=0, atol=10 * tolV, msg=f"lvi.T @ lvi is the inverse of the penalised information ({P.kind}, {P.kw})")
    if d:
        ctx.ok("cov_dropped", np.abs(C[d]).max() == 0, "covariance of dropped coefficients is not zero")
    M = V @ Hr
    edf = float(np.trace(M[kk]))
    et = 10 * tolV
    ctx.close("edf", float(m.edf), edf, rtol=et, atol=1e-5, msg=f"total edf ({P.kind}, dropped {d})")
    diag = np.diag(M)
    starts, ref = [], []
    for t in m.overall_penalties:
        s_ = t.start_index
        if s_ not in starts:
            starts.append(s_)
            ref.append(diag[s_: s_ + t.S_J.shape[1] * t.rep_sj].sum())
    if starts and not d:
        ctx.close("term_edf", np.asarray(m.term_edf, float).ravel(), ref, rtol=et, atol=1e-5, msg=f"edf per penalised term ({P.kind})")
    ctx.close("scale", float(m.scale), 1, rtol=0, atol=0, msg="scale of a general model")
    pen = float(b @ S @ b)
    ctx.close("penalty", float(np.squeeze(m.penalty)), pen, rtol=1e-6, atol=1e-6, msg="penalty is b'Sb")
    # likelihood
    if P.fam == "cox":
        ll = L.cox_parts(P, X[0], bs[0])[0]
    else:
        links = [m.family.link] if not hasattr(m.family, "links") else m.family.links
        ll = float(L.dens(P, [a @ q for a, q in zip(X, bs)], x, links).sum())
    ctx.close("llk", float(np.squeeze(m.get_llk(False))), ll, rtol=1e-8, atol=1e-6, msg=f"log-likelihood ({P.kind})", scale=n + abs(ll))
    ctx.close("llk_pen", float(np.squeeze(m.get_llk(True))), ll - pen / 2, rtol=1e-8, atol=1e-6, msg=f"penalised log-likelihood ({P.kind})", scale=n + abs(ll))
    if m.overall_penalties and not d and not qefs:
        pd = pseudo_logdet(m, 1.0, ctx, p)
        if pd is not None:
            ldH = np.linalg.slogdet(Ac)[1] - 2 * np.log(D).sum()
            r = float(np.squeeze(m.get_reml())) - (ll - pen / 2 + pd[0] / 2 - ldH / 2)
            h = np.log(2 * np.pi) / 2
            if len(m.formulas) == 1 and not m.has_extra_coef:
                ctx.close("reml_const", r, (p - pd[1]) * h, rtol=0, atol=2e-3, msg=f"REML score ({P.kind})")
            ctx.close("reml", r - h * np.round(r / h), 0, rtol=0, atol=2e-3, msg=f"REML score up to its constant ({P.kind})")
    residuals(P, m, X, bs, x, ctx)
    getters(P, m, X, bs, x, ctx)
    predictions(P, m, bs, C, ctx, c)


def residuals(P, m, X, bs, x, ctx):
    y = P.y
    mu = [np.asarray(m.family.links[k].fi(X[k] @ bs[k])).ravel() for k in range(P.npar)] if P.fam != "cox" else None
    if P.fam == "mulnom":
        ctx.seen("resid_mulnom")
        r = np.asarray(m.get_resid()).ravel()
        ctx.ok("resid_shape", len(r) == len(y), f"{len(r)} residuals of {len(y)} observations")
        return
    if P.fam == "cox":
        ctx.seen("resid")
        r = np.asarray(m.get_resid(resid_type="Martingale")).ravel()
        ctx.close("resid", r.sum(), 0, rtol=0, atol=1e-6 * len(y), msg="Martingale residuals sum to zero")
        g = np.exp(X[0] @ bs[0])
        H = np.zeros(len(P.ut))
        s = 0.0
        for j in range(len(P.ut)):
            k = P.r == j
            s += g[k].sum()
            H[j] = y[k].sum() / s
        cum = np.cumsum(H[::-1])[::-1]
        ctx.close("resid", r, y - cum[P.r] * g, rtol=1e-7, atol=1e-7, msg="Martingale residuals")
        return
    r = np.asarray(m.get_resid())
    if P.fam == "mvn":
        Y = np.array([P.df["y"].to_numpy(), P.df["y2"].to_numpy()]).T
        R = np.array([[np.exp(x[0]), x[1]], [0, np.exp(x[2])]])
        ctx.close("resid", r, (Y - np.array(mu).T) @ R.T, rtol=1e-7, atol=1e-7, msg="standardised residuals")
        return
    r = r.ravel()
    if P.fam.startswith("gaum"):
        ref = (y - mu[0]) / mu[1]
    elif P.fam == "gammals":
        ref = np.sign(y - mu[0]) * np.sqrt(unit_dev("gamma", y, mu[0], x) / mu[1])
    else:
        ref = np.sign(y - mu[0]) * np.sqrt(unit_dev(P.fam, y, mu[0], x))
    if ctx.ok("resid_shape", len(r) == len(y), f"{len(r)} residuals of {len(y)} observations"):
        k = np.isfinite(ref) & (np.abs(ref) < 6)
        ctx.close("resid", r[k], ref[k], rtol=1e-6, atol=1e-5, msg=f"residuals ({P.kind})")


def getters(P, m, X, bs, x, ctx):
    ctx.close("pars_all", np.asarray(m.get_pars()).ravel(), np.concatenate(bs + [x]), rtol=0, atol=0, msg="all coefficients")
    for k in range(P.npar):
        ctx.seen("pars")
        ctx.close("pars", np.asarray(m.get_pars(par=k)).ravel(), bs[k], rtol=0, atol=0, msg=f"coefficients of parameter {k}")
        tot = 0
        idx = m.formulas[k].coef_idx_per_term
        allc = []
        for t in range(len(P.specs[k])):
            q = np.asarray(m.get_pars(par=k, term=t)).ravel()
            ctx.close("pars_term", q, bs[k][idx[t]], rtol=0, atol=0, msg=f"coefficients of term {t} of parameter {k}")
            Xt = m.get_mmat(use_terms=[t], par=k)
            W = np.zeros_like(X[k])
            W[:, idx[t]] = X[k][:, idx[t]]
            ctx.seen("mmat")
            ctx.close("mmat", Xt.toarray(), W, rtol=0, atol=1e-12, msg=f"model matrix of term {t} of parameter {k}")
            tot = tot + Xt @ bs[k]
            allc += list(idx[t])
        ctx.ok("pars_cover", sorted(allc) == list(range(len(bs[k]))), f"terms of parameter {k} do not partition its coefficients")
        ctx.close("mmat_sum", tot, X[k] @ bs[k], rtol=1e-9, atol=1e-9, msg="sum over the terms")
    ctx.seen("ys")
    if P.gsmm:
        ys = m.get_ys()
        ctx.ok("ys_len", len(ys) == P.npar, f"{len(ys)} response vectors")
        for k in range(P.npar):
            want = P.y if P.lhs[k] == "y" else P.df["y2"].to_numpy()
            if ys[k] is not None:
                ctx.close("ys", np.asarray(ys[k], float).ravel(), want, rtol=0, atol=0, msg=f"response {k}")
            elif k == 0 or P.lhs[k] != P.lhs[0]:
                ctx.fail("ys", f"response {k} is missing")
            ctx.close("ys", np.asarray(m.get_ys(par=k), float).ravel(), want, rtol=0, atol=0, msg=f"response of parameter {k}")
        yy = np.asarray(m.get_ys(drop_NA=False)[0], float).ravel()
        ctx.ok("ys_na", len(yy) == len(P.df) and np.array_equal(np.isnan(yy), ~P.used), "responses including missing ones")
        Xa = m.get_mmat(drop_NA=False)
        ctx.ok("mmat_na", all(a.shape[0] == len(P.df) for a in Xa), "model matrices of all rows")
        ctx.close("mmat_na", Xa[0].toarray()[P.used], X[0], rtol=0, atol=1e-12, msg="model matrix of all rows")
    else:
        ctx.close("ys", np.asarray(m.get_ys(), float).ravel(), P.y, rtol=0, atol=0, msg="response")
    ctx.seen("par_check")
    bad = len(m.formulas) + (1 if m.has_extra_coef else 0)
    for what, f in (("get_pars", lambda: m.get_pars(par=bad)), ("predict", lambda: m.predict(None, P.df, par=len(m.formulas))), ("get_mmat", lambda: m.get_mmat(par=len(m.formulas))),
                    ("sample_post", lambda: m.sample_post(3, par=len(m.formulas)))):
        try:
            f()
            ctx.fail("par_check", f"{what} accepts a parameter the model does not have")
        except (ValueError, IndexError):
            pass
    if len(x):
        ctx.close("pars_extra", np.asarray(m.get_pars(par=len(m.formulas))).ravel(), x, rtol=0, atol=0, msg="extra coefficients")


def predictions(P, m, bs, C, ctx, c):
    rng = np.random.default_rng([20, c["seed"]])
    d = P.df
    before = [np.asarray(m.coef).copy(), C.copy(), d.copy()]
    levels = {v: sorted(set(d[v])) for v in ("fac", "grp", "bin")}
    lims = {v: (d[v].min(), d[v].max()) for v in ("x0", "x1", "x2", "x3")}
    lo = 0
    for k in range(P.npar):
        p = len(bs[k])
        V = C[lo:lo + p, lo:lo + p]
        lo += p
        spec = P.specs[k]
        e, X, ci = m.predict(None, d, par=k)
        X = X.toarray()
        ctx.seen("pred")
        ctx.ok("pred_none", ci is None, "an interval is returned without being asked for")
        ctx.close("pred", np.asarray(e).ravel()[P.used], np.asarray(m.preds[k]).ravel(), rtol=1e-7, atol=1e-7, msg=f"prediction of parameter {k} for the fitted data")
        ctx.close("pred", np.asarray(e).ravel(), X @ bs[k], rtol=1e-9, atol=1e-9, msg=f"prediction of parameter {k} is not the matrix times its coefficients")
        ix = rng.integers(0, len(d), 6)
        nd = d.iloc[ix][list(rng.permutation([a for a in d.columns if a not in ("y", "y2", "eta", "time")]))].copy()
        e2, X2, b2 = m.predict(None, nd, ci=True, par=k)
        ctx.close("pred_rows", X2.toarray(), X[ix], rtol=1e-10, atol=1e-10, msg=f"matrix of parameter {k} for some rows of the data")
        nd = c14.new_data(rng, d, 50)
        if c.get("dup"):
            nd["x9"] = 2 * nd["z"] - 1
        al = float(rng.choice([0.05, 0.2, 0.01]))
        en, Xn, bn = m.predict(None, nd, ci=True, alpha=al, par=k)
        Xn = Xn.toarray()
        ctx.seen("pred_ci")
        ctx.close("pred_new", np.asarray(en).ravel(), Xn @ bs[k], rtol=1e-9, atol=1e-9, msg=f"prediction of parameter {k} for new data")
        sdn = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", Xn, V, Xn), 0))
        ctx.close("pred_ci", bn, st.norm.ppf(1 - al / 2) * sdn, rtol=1e-5, atol=1e-7 * (1 + sdn.max()), msg=f"interval of parameter {k}, alpha={al}")
        idx = m.formulas[k].coef_idx_per_term
        lay = G.layout(spec, d, np.ones(len(d), bool), levels, lims)
        for en_ in lay:
            if "x9" in en_["t"].get("v", []):
                continue
            R, Rn = c14.term_raw(en_, spec, d, levels), c14.term_raw(en_, spec, nd, levels)
            cols = np.asarray(idx[en_["ti"]])
            U, s, Vt = np.linalg.svd(R, full_matrices=False)
            q = s > 1e-9 * s[0]
            rows = np.abs(Rn - Rn @ Vt[q].T @ Vt[q]).max(axis=1) < 1e-8
            Mx = Vt[q].T @ ((U[:, q].T @ X[:, cols]) / s[q, None])
            if rows.any() and np.abs(R @ Mx - X[:, cols]).max() < 1e-6 * (1 + np.abs(X[:, cols]).max()):
                ctx.close("pred_cols", Xn[rows][:, cols], (Rn @ Mx)[rows], rtol=1e-6, atol=1e-6 * (1 + np.abs(X[:, cols]).max()), msg=f"columns for new data of term {en_['t']} of parameter {k}")
        nt = len(spec)
        sub = [int(a) for a in rng.permutation(nt)[: max(1, nt // 2)]]
        es, Xs, b_ = m.predict(sub, nd, ci=True, par=k)
        W = np.zeros_like(Xn)
        for q in sub:
            W[:, idx[q]] = Xn[:, idx[q]]
        ctx.seen("pred_terms")
        ctx.close("pred_terms", Xs.toarray(), W, rtol=1e-10, atol=1e-10, msg=f"matrix for terms {sub} of parameter {k}")
        ctx.close("pred_terms", np.asarray(es).ravel(), W @ bs[k], rtol=1e-9, atol=1e-9, msg=f"prediction for terms {sub} of parameter {k}")
        sdn = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", W, V, W), 0))
        ctx.close("pred_terms", b_, st.norm.ppf(0.975) * sdn, rtol=1e-5, atol=1e-7 * (1 + sdn.max()), msg=f"interval for terms {sub} of parameter {k}")
        nd2 = c14.new_data(rng, d, 50)
        if c.get("dup"):
            nd2["x9"] = 2 * nd2["z"] - 1
        use = None if rng.random() < 0.5 else sub
        df_, bd = m.predict_diff(nd, nd2, use, alpha=al, par=k)
        Dm = (m.predict(use, nd, par=k)[1] - m.predict(use, nd2, par=k)[1]).toarray()
        sdd = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", Dm, V, Dm), 0))
        ctx.seen("diff")
        ctx.close("diff", np.asarray(df_).ravel(), Dm @ bs[k], rtol=1e-8, atol=1e-8, msg=f"difference of parameter {k}")
        ctx.close("diff", bd, st.norm.ppf(1 - al / 2) * sdd, rtol=1e-5, atol=1e-7 * (1 + sdd.max()), msg=f"interval of the difference of parameter {k}")
        if k == c["seed"] % P.npar:
            c14.judge_whole(ctx, rng, m, V, use, nd, None, max(al, 0.05), "whole", par=k, n_ps=3000)
            c14.judge_whole(ctx, rng, m, V, use, nd, nd2, max(al, 0.05), "whole_diff", par=k, n_ps=3000)
        ns = 4000
        sample = np.asarray(m.sample_post(ns, seed=int(c["seed"] % 997), par=k))
        dev = np.asarray(m.sample_post(ns, deviations=True, seed=int(c["seed"] % 997), par=k))
        ctx.seen("post")
        if ctx.ok("post_shape", sample.shape == (p, ns), f"samples of parameter {k} have shape {sample.shape}"):
            ctx.close("post_seed", sample, dev + bs[k][:, None], rtol=1e-9, atol=1e-9, msg="samples and deviations of the same seed")
            c14.judge_post(ctx, sample - bs[k][:, None], V, f"posterior of parameter {k}")
            ix = np.sort(rng.permutation(p)[: max(1, p // 3)])
            s2 = np.asarray(m.sample_post(ns, use_post=ix, seed=3, par=k))
            if ctx.ok("post_sub", s2.shape == (len(ix), ns), f"shape {s2.shape} of samples of {len(ix)} coefficients"):
                c14.judge_post(ctx, s2 - bs[k][ix, None], V[np.ix_(ix, ix)], f"posterior of some coefficients of parameter {k}")
    ctx.seen("pure")
    lvi = m.lvi.toarray() if hasattr(m.lvi, "toarray") else np.asarray(m.lvi)
    ctx.ok("pure", np.array_equal(before[0], np.asarray(m.coef)) and np.array_equal(before[1], lvi.T @ lvi) and before[2].equals(P.df), "predicting changed the model or its data")
