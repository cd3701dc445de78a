"""Fitted GAMMs: everything reported about the fit (covariance, edf, scale, likelihood, REML, residuals) is what it is said to be."""
import numpy as np
import scipy.stats as st
from scipy.special import gammaln

from checks.c15 import dropped, parts
from vlib import fit_ref as F

RULE = ("random formulas, families, links, responses with missing values, offsets, ar1 residual models, solvers and fitting options; "
        "non-trivial = the fit reported convergence and its reported quantities were recomputed densely")
ASSUMPTIONS = ["models that do not report convergence are not judged",
               "model matrix and penalties are the library's (judged separately)"]
REQUIRED = ["cov", "edf", "term_edf", "scale", "llk", "llk_pen", "reml", "resid", "resid_dev", "resid_ar1", "hessian", "hessian_obs", "pars", "terms", "scale_fixed"]
CASE_TIMEOUT = 240


def cases(tier, seed):
    rng = np.random.default_rng([16, seed])
    out = []
    n = 150 if tier == "quick" else 2500
    for k in range(n):
        c = {"seed": int(rng.integers(2**31)), "fam": F.FAMS[k % 8], "method": str(rng.choice(["QR", "Chol"]))}
        q = k % 10
        if q in (1, 6):
            c["offset"] = str(rng.choice(["scalar", "array"]))
        if q in (2, 7):
            c["ar"] = str(rng.choice(["one", "series"]))
            c["fam"] = "gauss"
        if q == 3:
            c["pql"] = True
        if q == 5 and rng.random() < 0.8:
            c["dup"] = True
            c["method"] = "QR"
        if q == 8:
            c["ext"] = True
        if q == 9:
            c["int"] = c["fam"] in ("gauss", "poisson")
            if c["fam"] in ("gauss", "gamma", "gausslog", "invgauss"):
                c["fixscale"] = round(float(rng.uniform(0.2, 2)), 3)
        out.append(c)
    for k in range(16 if tier == "quick" else 200):
        out.append({"seed": int(rng.integers(2**31)), "fam": ["gauss", "gamma", "poisson", "binom1"][k % 4], "smooth": False, "nopen": True,
                    "method": str(rng.choice(["QR", "Chol"])), "dup": bool(k % 4 == 1)})
    for k in range(18 if tier == "quick" else 250):
        c = {"seed": int(rng.integers(2**31)), "fam": "t", "method": str(rng.choice(["QR", "Chol"]))}
        c.update([{}, {"offset": "array"}, {"pql": True}, {"dup": True}, {"ext": True}, {}][k % 6])
        out.append(c)
    return [c if not c.get("dup") else {**c, "method": "QR"} for c in out]


def loglik(fam, y, mu, phi, nb=None, th=None):
    """Sum of the log densities of the stated distributions."""
    if fam in ("gauss", "gausslog"):
        return st.norm.logpdf(y, mu, np.sqrt(phi)).sum()
    if fam == "gamma":
        return st.gamma.logpdf(y, 1 / phi, scale=mu * phi).sum()
    if fam == "invgauss":
        return (-0.5 * np.log(2 * np.pi * phi * y**3) - (y - mu) ** 2 / (2 * phi * mu**2 * y)).sum()
    if fam == "poisson":
        return st.poisson.logpmf(y, mu).sum()
    if fam == "t":
        return (st.t.logpdf((y - mu) / np.exp(th[0]), 3 + np.exp(th[1])) - th[0]).sum()
    n = np.ones_like(y) if nb is None else nb
    k = np.round(y * n)
    return (gammaln(n + 1) - gammaln(k + 1) - gammaln(n - k + 1) + k * np.log(mu) + (n - k) * np.log1p(-mu)).sum()


def deviances(fam, y, mu, nb=None, th=None):
    with np.errstate(all="ignore"):
        if fam in ("gauss", "gausslog"):
            return (y - mu) ** 2
        if fam == "gamma":
            return 2 * ((y - mu) / mu - np.log(y / mu))
        if fam == "invgauss":
            return (y - mu) ** 2 / (mu**2 * y)
        if fam == "poisson":
            return 2 * (np.where(y > 0, y * np.log(y / mu), 0) - (y - mu))
        if fam == "t":
            nu = 3 + np.exp(th[1])
            return (nu + 1) * np.log1p(((y - mu) / np.exp(th[0])) ** 2 / nu)
        n = np.ones_like(y) if nb is None else nb
        return 2 * n * (np.where(y > 0, y * np.log(y / mu), 0) + np.where(y < 1, (1 - y) * np.log((1 - y) / (1 - mu)), 0))


def pseudo_logdet(m, phi, ctx, p):
    """log generalised determinant of S/phi and its rank; None if not numerically clear."""
    S = F.total_S(m, p) / phi
    B = sum(t.S_J_emb.toarray() / np.abs(t.S_J_emb.toarray()).max() for t in m.overall_penalties)
    e, U = np.linalg.eigh(B)
    big = e > 1e-9 * e.max()
    if np.any((e > 1e-12 * e.max()) & (e < 1e-7 * e.max())):
        return None
    U = U[:, big]
    M = U.T @ S @ U
    w = np.linalg.eigvalsh(M)
    d = 1 / np.sqrt(np.diag(M))
    w2 = np.linalg.eigvalsh(M * d[:, None] * d[None, :])
    if w.min() < 1e-11 * w.max() and w2.min() < 1e-11 * w2.max():
        return None
    ld = np.log(w).sum() if w.min() > 1e-11 * w.max() else np.log(w2).sum() - 2 * np.log(d).sum()
    return ld, int(big.sum())


def run_case(c, ctx):
    P = F.problem(c)
    if c.get("int"):
        P.df["y"] = P.df["y"].round() if P.fam == "gauss" else P.df["y"]
        if not P.df["y"].isna().any():
            P.df["y"] = P.df["y"].astype(int)
        P.y = P.df["y"].to_numpy()[P.used].astype(float)
    if c.get("nopen"):
        P.spec = [t for t in P.spec if t["k"] in ("i", "l")]
    m = F.fit(P)
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    X, b, S, eta, g, XWX, r, mu = parts(P, m)
    p, n = len(b), len(P.y)
    d = dropped(m)
    keep = np.setdiff1d(np.arange(p), d)
    nb = None if P.nb is None else P.nb[P.used]
    two = P.fam in ("gauss", "gausslog", "gamma", "invgauss")
    # PQL stops at a relative deviance change of the tolerance: its weights lag one step
    loose = 1e-4 if (c.get("pql") or (P.fam != "gauss" and not m.overall_penalties)) else 2e-6

    H = (XWX + S)[np.ix_(keep, keep)]
    D = 1 / np.sqrt(np.diag(H))
    Hc = H * D[:, None] * D[None, :]
    cond = np.linalg.cond(Hc)
    if cond > 1e9:
        ctx.skip("ill-conditioned")
    V = np.zeros((p, p))
    V[np.ix_(keep, keep)] = np.linalg.inv(Hc) * D[:, None] * D[None, :]
    L = m.lvi.toarray()
    tolV = max(loose, 1e-13 * cond)
    sd = np.sqrt(np.diag(V)) + 1e-300
    corr = (L.T @ L) / sd[:, None] / sd[None, :]
    kk = np.ix_(keep, keep)
    ctx.close("cov", corr[kk], (V / sd[:, None] / sd[None, :])[kk], rtol=0, atol=10 * tolV, msg="lvi.T@lvi is the inverse of the penalised information (relative to standard errors)")
    ctx.ok("cov_dropped", not d or np.abs((L.T @ L)[d]).max() == 0, "covariance of dropped coefficients is not zero")

    A = V @ XWX
    edf = float(np.trace(A))
    ctx.close("edf", float(m.edf), edf, rtol=10 * tolV, atol=1e-6, msg=f"total edf ({P.fam}, {P.kw}, dropped {d})")
    diag = np.diag(A)
    starts, ref = [], []
    for t in m.overall_penalties:
        if t.start_index not in starts:
            starts.append(t.start_index)
            ref.append(diag[t.start_index: t.start_index + t.S_J.shape[1] * t.rep_sj].sum())
    if starts and not any(s <= k < s + 10**6 for k in d for s in [min(starts)]):
        ctx.close("term_edf", np.asarray(m.term_edf, float).ravel(), ref, rtol=10 * tolV, atol=1e-5, msg="edf per penalised term")

    rss = float(r @ r)
    phi = float(m.scale)
    if P.fixscale is not None:
        ctx.close("scale_fixed", phi, P.fixscale, rtol=0, atol=0, msg="a scale that is given is used")
    elif two:
        ctx.close("scale", phi, rss / (n - edf), rtol=max(10 * tolV, 1e-6), atol=0, msg="scale is the weighted residual sum of squares over residual degrees of freedom")
    else:
        ctx.close("scale", phi, 1, rtol=0, atol=0, msg="scale of a one-parameter family")
    ctx.close("hessian", -m.hessian.toarray()[kk] * phi, XWX[kk], rtol=max(loose, 1e-8), atol=1e-10, msg="hessian is the negative expected information over the scale")
    if P.fam != "gauss":
        wn = F.glm_parts(P.fam, P.y, eta, nb, getattr(P, "theta", None))[2]
        ctx.close("hessian_obs", -m.hessian_obs.toarray()[kk] * phi, (X.T @ (X * wn[:, None]))[kk], rtol=max(loose, 1e-7), atol=1e-10, msg="hessian_obs is the negative observed information over the scale", scale=np.abs(XWX).max())
    pen = float(b @ S @ b)
    ctx.close("penalty", float(np.squeeze(m.penalty)), pen, rtol=1e-4, atol=1e-6, msg="penalty is b'Sb")

    llt = 5e-3 if P.rho is not None else 1e-5  # ar1 residuals are those of the last proposed step
    if P.rho is not None:
        W = F.whiten(P)
        ll = st.norm.logpdf(r, 0, np.sqrt(phi)).sum() + np.log(np.diag(W)).sum()
    else:
        ll = loglik(P.fam, P.y, mu, phi, nb, getattr(P, "theta", None))
    ctx.close("llk", float(np.squeeze(m.get_llk(False))), ll, rtol=1e-8, atol=llt, msg=f"log-likelihood ({P.fam})", scale=n + abs(ll))
    ctx.close("llk_pen", float(np.squeeze(m.get_llk(True))), ll - pen / phi / 2, rtol=1e-8, atol=llt, msg=f"penalised log-likelihood ({P.fam})", scale=n + abs(ll))
    if two and P.rho is None:
        e = phi * 1.7
        ctx.close("llk_ext", float(np.squeeze(m.get_llk(False, ext_scale=e))), loglik(P.fam, P.y, mu, e, nb), rtol=1e-8, atol=1e-5, msg="log-likelihood at an external scale", scale=n + abs(ll))

    if m.overall_penalties and not d:
        pd = pseudo_logdet(m, phi, ctx, p)
        if pd is not None:
            ldH = np.linalg.slogdet(Hc)[1] - 2 * np.log(D).sum() - len(keep) * np.log(phi)
            ref = ll - pen / phi / 2 + pd[0] / 2 - ldH / 2 + (p - pd[1]) * np.log(2 * np.pi) / 2
            ctx.close("reml", float(np.squeeze(m.get_reml())), ref, rtol=0, atol=1e-3 * max(1, loose / 1e-5), msg=f"REML score ({P.fam}, rank {pd[1]} of {p})")
    # residuals
    lab = np.asarray(m.get_resid()).ravel()
    if P.fam == "gauss":
        ctx.close("resid", lab, P.y - eta, rtol=1e-4, atol=1e-6, msg="residuals y - mu", scale=np.std(P.y))
    else:
        ctx.close("resid", lab, r, rtol=max(10 * loose, 1e-4), atol=1e-6, msg="working residuals sqrt(w)(z-eta)", scale=max(1, np.abs(r).max()))
    dv = np.asarray(m.get_resid("Deviance")).ravel()
    ctx.close("resid_dev", dv, np.sign(P.y - mu) * np.sqrt(np.maximum(deviances(P.fam, P.y, mu, nb, getattr(P, "theta", None)), 0)), rtol=1e-6, atol=2e-6, msg=f"deviance residuals ({P.fam})")
    if P.rho is not None:
        ctx.close("resid_ar1", np.asarray(m.get_resid("ar1")).ravel(), r, rtol=1e-4, atol=1e-6, msg="whitened residuals", scale=np.std(P.y))
    else:
        try:
            m.get_resid("ar1")
            ctx.fail("resid_ar1_none", "ar1 residuals returned by a model without ar1 model")
        except ValueError:
            ctx.seen("resid_ar1_none")
    # coefficients and responses
    co, sc = m.get_pars()
    ctx.ok("pars", np.array_equal(np.asarray(co).ravel(), b) and sc == m.scale, "get_pars() is not coef, scale")
    ctx.close("ys", np.asarray(m.get_ys()).ravel(), P.y, rtol=0, atol=0, msg="get_ys returns the responses that are not missing")
    tot = np.zeros(n)
    seen = np.zeros(p, int)
    for j in range(len(P.spec)):
        Xj = m.get_mmat(use_terms=[j]).toarray()
        cj = np.where(np.abs(Xj).max(axis=0) > 0)[0]
        bj = np.asarray(m.get_pars(term=j)[0]).ravel()
        ctx.ok("terms", len(cj) <= len(bj) and set(b[cj]) <= set(bj), f"get_pars(term={j}) does not hold the coefficients of the term's columns")
        seen[cj] += 1
        tot += Xj @ b
    ctx.ok("terms_partition", np.all(seen <= 1), "a column belongs to two terms")
    ctx.close("terms_sum", tot + F.off(P), eta, rtol=1e-8, atol=1e-8, msg="term contributions add up to the linear predictor")
    ctx.sample = {"fam": P.fam, "edf": edf, "scale": phi, "llk": float(ll), "n": n, "p": p}
