"""Fitted GAMMs: the reported coefficients solve the penalised likelihood equations of the stated model."""
import numpy as np

from vlib import fit_ref as F

RULE = ("random formulas, families, links, responses with missing values, offsets, ar1 residual models, solvers and fitting options; "
        "non-trivial = the fit reported convergence and the score was evaluated at the reported coefficients and smoothing parameters")
ASSUMPTIONS = ["models that do not report convergence are not judged",
               "scores use the library's model matrix and penalties (judged separately)"]
REQUIRED = {"score": 120, "fitted": 120, "ar1": 10, "offset": 10, "dropped": 5, "no_penalty": 5, "pql": 8, "theta": 10}
CASE_TIMEOUT = 240


def cases(tier, seed):
    rng = np.random.default_rng([15, seed])
    out = []
    n = 170 if tier == "quick" else 2500
    for k in range(n):
        c = {"seed": int(rng.integers(2**31)), "fam": F.FAMS[k % 8], "method": str(rng.choice(["QR", "Chol"]))}
        q = k % 10
        if q in (1, 6):
            c["offset"] = str(rng.choice(["scalar", "array"]))
        if q in (2, 7):
            c["ar"] = str(rng.choice(["one", "series"]))
            c["fam"] = "gauss"
        if q == 3:
            c["pql"] = True
        if q == 4:
            c["smooth"] = bool(rng.random() < 0.5)
        if q == 5 and rng.random() < 0.8:
            c["dup"] = True
            c["method"] = "QR"
        if q == 8:
            c["ext"] = True
            c["control"] = int(rng.choice([1, 2]))
        if q == 9:
            c["control"] = int(rng.choice([0, 1]))
        out.append(c)
    for k in range(16 if tier == "quick" else 200):
        out.append({"seed": int(rng.integers(2**31)), "fam": ["gauss", "gamma", "poisson", "binom1"][k % 4], "smooth": False, "nopen": True,
                    "method": str(rng.choice(["QR", "Chol"])), "dup": bool(k % 4 == 1)})
    for k in range(24 if tier == "quick" else 300):
        c = {"seed": int(rng.integers(2**31)), "fam": "t", "method": str(rng.choice(["QR", "Chol"]))}
        c.update([{}, {"offset": "array"}, {"pql": True}, {"dup": True}, {"ext": True, "control": 1}, {}][k % 6])
        out.append(c)
    return [c if not (c.get("dup")) else {**c, "method": "QR"} for c in out]


def aggregate(recs, tier):
    """Fits of these well-posed problems converge (a few percent do not, at most)."""
    n = sum(r["status"] in ("held", "violated", "skip") for r in recs)
    bad = [r for r in recs if r["status"] == "skip" and "convergence" in r.get("why", "")]
    rec = {"case": {"aggregate": "convergence"}, "status": "held", "bad": [], "events": {"convergence_rate": 1}, "maxerr": {}}
    if n and len(bad) > 0.25 * n:
        rec["status"] = "violated"
        rec["bad"] = [{"monitor": "convergence_rate", "message": f"{len(bad)} of {n} fits of regular problems did not report convergence", "detail": [r["case"] for r in bad[:5]]}]
    return [rec]


def dropped(m):
    return [] if m.info.dropped is None else [int(a) for a in m.info.dropped]


def parts(P, m):
    """model matrix, coefficients, penalty, linear predictor, score and weights at the reported fit."""
    X = m.get_mmat().toarray()
    b = np.asarray(m.coef).ravel()
    S = F.total_S(m)
    eta = X @ b + F.off(P)
    nb = None if P.nb is None else P.nb[P.used]
    if P.fam == "gauss" and P.rho is not None:
        W = F.whiten(P)
        r = W @ (P.y - eta)
        XW = W @ X
        return X, b, S, eta, XW.T @ r, XW.T @ XW, r, eta
    s, wf, wn, mu = F.glm_parts(P.fam, P.y, eta, nb, getattr(P, "theta", None))
    if P.rho is not None:
        W = F.whiten(P)
        XW = W @ (X * np.sqrt(wf)[:, None])
        r = W @ (s / np.sqrt(wf))
        return X, b, S, eta, XW.T @ r, XW.T @ XW, r, mu
    return X, b, S, eta, X.T @ s, X.T @ (X * wf[:, None]), s / np.sqrt(wf), mu


def run_case(c, ctx):
    P = F.problem(c)
    if c.get("nopen"):
        P.spec = [t for t in P.spec if t["k"] in ("i", "l")]
    m = F.fit(P)
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    X, b, S, eta, g, XWX, r, mu = parts(P, m)
    d = dropped(m)
    keep = np.setdiff1d(np.arange(len(b)), d)
    sc = g - S @ b
    H = (XWX + S)[np.ix_(keep, keep)]
    D = 1 / np.sqrt(np.diag(H))
    st = D * np.linalg.solve(H * D[:, None] * D[None, :], D * sc[keep])
    dec = float(sc[keep] @ st)
    tot = float(r @ r + b @ S @ b) + 1e-12
    tol = 1e-8 if not c.get("pql") else 1e-6
    ctx.close("score", dec / tot, 0, rtol=0, atol=tol, msg=f"Newton decrement of the penalised likelihood relative to the penalised weighted residual sum of squares ({P.fam}, {P.kw})")
    step = np.abs(X[:, keep] @ st).max()
    ctx.close("score_step", step / (np.std(eta) + 1e-3), 0, rtol=0, atol=2e-2 if tol > 1e-7 else 1e-3, msg="change of the linear predictor by one more Newton step")
    if d:
        ctx.close("dropped", b[d], 0, rtol=0, atol=1e-12, msg="coefficients reported as dropped are zero")
        ctx.ok("dropped_span", np.linalg.matrix_rank(np.vstack([X / np.abs(X).max(), _root(S / (np.abs(S).max() + 1e-300))])) == len(keep), f"dropped {d}, kept columns do not span the penalised model space")
    if c.get("dup"):
        ctx.ok("dropped_found", len(d) >= 1, "collinear columns but no coefficient dropped")
    if P.rho is not None:
        ctx.seen("ar1")
    if P.offset is not None:
        ctx.seen("offset")
    if P.fam == "t":
        theta_step(P, mu, ctx)
    if len(m.overall_penalties) == 0:
        ctx.seen("no_penalty")
    if c.get("pql"):
        ctx.seen("pql")
    ctx.close("fitted", np.asarray(m.preds[0]).ravel(), eta, rtol=1e-8, atol=1e-8, msg="stored linear predictor is X @ coef + offset")
    ctx.close("fitted_mean", np.asarray(m.mus[0]).ravel(), F.lfi(P.fam, eta), rtol=1e-7, atol=1e-8, msg="stored mean is the inverse link of the linear predictor")
    ctx.ok("lambda_positive", all(np.isfinite(t.lam) and t.lam > 0 for t in m.overall_penalties), "a smoothing parameter is not positive")
    ctx.sample = {"fam": P.fam, "dec": dec / tot, "step": float(step), "iter": int(m.info.iter)}


def _root(S):
    e, U = np.linalg.eigh(S)
    return (U * np.sqrt(np.maximum(e, 0))).T


def theta_step(P, mu, ctx):
    """the parameters of the scaled t distribution maximise the likelihood at the reported mean"""
    import scipy.stats as st
    y, th = P.y, P.theta

    def ll(t):
        return st.t.logpdf((y - mu) / np.exp(t[0]), 3 + np.exp(t[1])).sum() - len(y) * t[0]
    best, l0 = 0.0, ll(th)
    for a in (-0.05, -0.01, 0, 0.01, 0.05):
        for b in (-0.3, -0.05, 0, 0.05, 0.3):
            best = max(best, ll(th + np.array([a, b])) - l0)
    ctx.close("theta", best, 0, rtol=0, atol=2e-3, msg=f"log-likelihood gained by changing scale and degrees of freedom of the t distribution ({np.round(th, 3)}, {P.kw})")
