"""Fitted GAMMLSS and GSMMs: stationary coefficients, optimal smoothing parameters, agreement of equivalent statements."""
import numpy as np

from vlib import lss_ref as L

RULE = ("random models of one or several parameters (normal, Gamma and multinomial location-scale models; proportional hazards; multivariate normal; GAMM families as general models), formulas, missing responses, "
        "collinear columns, solvers and fitting options; non-trivial = the fit reported convergence and score, smoothing parameters or an equivalent fit were judged")
ASSUMPTIONS = ["models that do not report convergence are not judged", "scores use the library's model matrices and penalties (judged separately)",
               "smoothing parameters are judged by the restricted likelihood of the quadratic model at convergence, with the Hessian the fit reports (expected where the family states expected derivatives)"]
REQUIRED = {"score": 60, "reml_gain": 40, "same_gsmm": 4, "same_gamm": 3, "same_method": 6, "dropped_found": 3, "no_penalty": 4, "empty_level": 3, "same_start": 6, "extra_penalty": 3, "same_built": 2}
CASE_TIMEOUT = 400
METH = ["QR/Chol", "LU/Chol", "Direct/Chol", "Chol"]


def cases(tier, seed):
    rng = np.random.default_rng([19, seed])
    q = tier == "quick"
    out = []
    fast = ["gaum", "gaumlog", "gammals", "mulnom", "g_gaum", "g_gammals", "g_mulnom", "cox"]
    for k in range(64 if q else 900):
        c = {"kind": fast[k % 8], "seed": int(rng.integers(2**31)), "method": str(rng.choice(METH)), "na": bool(rng.random() < 0.3)}
        j = (k // 8) % 8
        if j == 1:
            c["repara"] = False
        if j == 2:
            c["nopen"] = True
        if j == 3:
            c["dup"] = True
            c["method"] = "QR/Chol"
        if j == 4:
            c["extend_lambda"] = True
            c["control_lambda"] = int(rng.choice([1, 2]))
        if j == 5:
            c["prefit_grad"] = not c["kind"].startswith(("g_", "cox"))
        if j == 7 and c["kind"] != "cox":
            c["empty"] = True
        if j == 6:
            c["control_lambda"] = int(rng.choice([0, 1]))
        if c["kind"] == "cox":
            c["ties"] = bool(rng.random() < 0.5)
        elif (k + k // 8) % 4 == 0:
            c["lhsf"] = True
        out.append(c)
    for k in range(5 if q else 60):
        out.append({"kind": "mvn", "seed": int(rng.integers(2**31)), "n": 300})
        out.append({"kind": "mvn", "seed": int(rng.integers(2**31)), "n": 300, "lhsf": k % 3 == 0, "method": "QR/Chol" if k % 2 else str(rng.choice(METH)), "dup": bool(k % 2)})
    slow = ["g_poisson", "g_binom", "g_gauss", "g_gamma", "g_t"]
    for k in range(10 if q else 100):
        out.append({"kind": slow[k % 5], "seed": int(rng.integers(2**31)), "n": 250, "method": str(rng.choice(METH)), "small": True, "na": bool(k % 2), "nopen": bool(k % 5 > 2 and k >= 5), "same": "gamm" if k % 5 in (0, 1, 2, 3) and k < 20 else None})
    for k in range(8 if q else 100):
        out.append({"kind": ["gaum", "gaumlog", "gammals", "mulnom"][k % 4], "seed": int(rng.integers(2**31)), "same": "gsmm", "method": "QR/Chol", "na": bool(k % 2)})
    for k in range(12 if q else 120):
        out.append({"kind": fast[k % 8], "seed": int(rng.integers(2**31)), "same": "method", "method": "QR/Chol", "na": bool(k % 2), "ties": True, "nopen": bool(k % 6 == 5)})
    for k in range(12 if q else 120):
        out.append({"kind": fast[k % 8], "seed": int(rng.integers(2**31)), "same": "start", "method": "QR/Chol", "na": bool(k % 2), "ties": True})
    for k in range(6 if q else 60):
        out.append({"kind": ["g_gaum", "cox", "g_mulnom", "g_gammals"][k % 4], "seed": int(rng.integers(2**31)), "extra": True, "method": str(rng.choice(METH)), "na": bool(k % 2)})
        if k % 2:
            out.append({"kind": "mvn", "seed": int(rng.integers(2**30)) * 2 + k // 2 % 2, "n": 200, "same": "built", "method": "qEFS" if k % 6 == 5 else "QR/Chol"})
    qk = ["g_mulnom", "cox", "g_poisson", "g_binom", "mvn", "g_gaum", "g_gammals"]
    for k in range(21 if q else 210):
        # quasi-Newton fits whose final Hessian comes from Hessian-vector products of the gradient, as many as there are coefficients
        out.append({"kind": qk[k % 7], "seed": int(rng.integers(2**31)), "n": 250, "method": "qEFS", "qefs": True, "sample_hessian_method": 1, "structured_qefs": bool((k // 7) % 2), "qEFS_memory_usage": [1.0, 1.0, 0.5][(k // 7) % 3],
                    "simple": True, "ties": bool(k % 2)})
    return out


def qefs(P, m, c, ctx):
    """Quasi-Newton fit with a Hessian assembled from exact products."""
    llk, g, H = L.score(P, m)
    S = L.total_S(m)
    A = S - H
    D = 1 / np.sqrt(np.abs(np.diag(A)))
    Hr = -m.hessian.toarray()
    e = np.linalg.eigvalsh(-H * D[:, None] * D[None, :])
    ctx.sample = {"kind": "mvn", "qdec": ctx.sample["dec"]}
    if e[0] < -1e-9:
        ctx.skip("likelihood not clearly concave at the estimate")
    ctx.close("qefs_hessian", Hr * D[:, None] * D[None, :], -H * D[:, None] * D[None, :], rtol=0, atol=1e-3, msg=f"Hessian of a quasi-Newton fit that samples products along as many directions as there are coefficients ({P.kind}, {P.kw})")
    V = (m.lvi.T @ m.lvi).toarray()
    W = np.linalg.inv(A)
    s = np.sqrt(np.diag(W))
    ctx.close("qefs_V", V / s[:, None] / s[None, :], W / s[:, None] / s[None, :], rtol=0, atol=1e-3, msg=f"covariance of a quasi-Newton fit ({P.kind}, {P.kw})")
    ctx.close("qefs_edf", m.edf, -np.trace(W @ H), rtol=1e-3, atol=1e-3, msg=f"edf of a quasi-Newton fit ({P.kind}, {P.kw})")
    if P.fam in ("mulnom", "cox", "poisson", "binom") and c["qEFS_memory_usage"] == 1:
        m2 = L.fit(P, method="QR/Chol")
        if m2.info.code == 0:
            # judged over all cases: smoothing parameters are flat now and then, and both fits stop somewhere on the flat
            s = np.sqrt(np.diag((m2.lvi.T @ m2.lvi).toarray()))
            d = np.abs(np.asarray(m2.coef).ravel() - np.asarray(m.coef).ravel())
            ctx.sample["qnewton"] = float(np.median(d / (s + 1e-9)))


def small(P):
    rng = np.random.default_rng(P.c["seed"])
    P.specs = [[{"k": "i"}, {"k": "f", "v": [str(rng.choice(["x0", "x1"]))], "nk": 6}] + ([{"k": "l", "v": ["z"]}] if rng.random() < 0.5 else [])]
    if P.c.get("nopen"):
        P.specs = [[{"k": "i"}, {"k": "l", "v": ["z"]}]]


def run_case(c, ctx):
    P = L.problem(c)
    if c.get("small"):
        small(P)
    if c.get("simple"):
        i = [] if P.fam == "cox" else [{"k": "i"}]
        P.specs = [i + [{"k": "f", "v": [v], "nk": 6}] + ([{"k": "l", "v": ["z"]}] if c["seed"] % 2 else []) for v in (["x0", "x1"] if c["seed"] % 3 else ["x1", "x0"])[:P.npar]]
    if c.get("lhsf"):
        half, cbrt = (lambda v: (v - 1) / 2), np.cbrt
        P.lhsf = [half] + [cbrt if v == "y2" else half if P.rng.random() < 0.5 else None for v in P.lhs[1:]]
    if c.get("same") == "built":
        P.specs = [[{"k": "i"}, {"k": "f", "v": [["x0", "x1"][c["seed"] % 2]], "nk": 6}]] * P.npar
    m = fit_extra(P, c) if c.get("extra") else L.fit(P, **({"repara": False} if c.get("same") == "built" else {}))
    if c.get("extra"):
        ctx.seen("extra_penalty")
        ctx.ok("extra_penalty", any(np.array_equal(t.S_J_emb.toarray(), P.extra) for t in m.overall_penalties), "penalty given to fit() is not among those of the model")
    if c.get("lhsf"):
        ys = m.get_ys()
        ys = [ys] if isinstance(ys, np.ndarray) else ys
        ctx.close("response", np.ravel(ys[0]), P.y, rtol=1e-12, atol=1e-12, msg="response with the function given for it applied")
        ctx.ok("response", all(q is not None for q in ys) or any(g is None for g in P.lhsf[1:]) or not P.gsmm, "response of a later parameter missing although a function was given for it")
        for q, v in zip(ys[1:], P.lhs[1:]):
            if v == "y2":
                ctx.close("response", np.ravel(q), P.df["y2"].to_numpy(), rtol=1e-9, atol=1e-9, msg="second response with the function given for it applied")
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    if P.fam == "t" and float(np.asarray(m.coef).ravel()[-1]) > 7:
        ctx.skip("no finite degrees of freedom")
    if c.get("same"):
        return same(P, m, c, ctx)
    judge(P, m, c, ctx)
    if c.get("qefs"):
        qefs(P, m, c, ctx)


def fit_extra(P, c):
    """Model with a ridge penalty of the user on two parametric coefficients."""
    import scipy.sparse as sp
    from mssm.src.python.custom_types import LambdaTerm, PenType
    i = [] if P.fam == "cox" else [{"k": "i"}]
    f = [{"k": "f", "v": [v], "nk": 6} for v in ("x0", "x1")]
    par = [{"k": "l", "v": ["fac"]}, {"k": "l", "v": ["z"]}]
    w = c["seed"] % P.npar
    P.specs = [i + (par if k == w else []) + [f[k]] for k in range(P.npar)]
    forms = L.formulas(P)
    n = [len(g.coef_names) if g.coef_names else g.n_coef for g in forms]
    st, p = sum(n[:w]) + len(i), sum(n)
    P.extra = np.zeros((p, p))
    P.extra[st:st + 2, st:st + 2] = np.eye(2)
    E = sp.csc_array(P.extra)
    return L.fit(P, extra_penalties=[LambdaTerm(S_J=sp.csc_array(np.eye(2)), S_J_emb=E, D_J_emb=E, start_index=st, type=PenType.IDENTITY, rank=2, term=1, dist_param=w)])


def judge(P, m, c, ctx):
    llk, g, H = L.score(P, m)
    b = np.asarray(m.coef).ravel()
    S = L.total_S(m)
    d = L.dropped(m)
    keep = np.setdiff1d(np.arange(len(b)), d)
    Hr = -m.hessian.toarray()
    sc = (g - S @ b)[keep]
    A = (-H + S)[np.ix_(keep, keep)]
    e = np.linalg.eigvalsh(A)
    if e[0] <= 1e-10 * e[-1]:
        A = (Hr + S)[np.ix_(keep, keep)]
    D = 1 / np.sqrt(np.abs(np.diag(A)))
    dec = float(sc @ (D * np.linalg.solve(A * D[:, None] * D[None, :], D * sc)))
    qefs = P.kw.get("method") == "qEFS"
    # quasi-Newton fits with little memory stop early now and then: judged by the median over all cases (qdec) and only grossly per case
    tol = 0.3 if c.get("qefs") else 1e-3 if qefs else 3e-5
    ctx.close("score", dec / (abs(llk) + 10), 0, rtol=0, atol=tol, msg=f"Newton decrement of the penalised likelihood relative to its size ({P.kind}, {P.kw})")
    if d:
        ctx.close("dropped", b[d], 0, rtol=0, atol=1e-12, msg="coefficients reported as dropped are zero")
    if c.get("dup"):
        ctx.ok("dropped_found", len(d) >= 1, "collinear columns but no coefficient dropped")
    X, bs, x = L.mats(P, m)
    if d:
        # what is kept spans the penalised model of every parameter
        lo = 0
        for X_ in X:
            k = X_.shape[1]
            Sk = S[lo:lo + k, lo:lo + k]
            dk = [a - lo for a in d if lo <= a < lo + k]
            ev, U = np.linalg.eigh(Sk)
            R = (U * np.sqrt(np.maximum(ev, 0))).T
            Xc = X_ - X_.mean(axis=0) if P.fam == "cox" else X_
            M = np.vstack([Xc, R / (np.abs(R).max() + 1e-300) * (np.abs(Xc).max() + 1e-300)])
            r0 = np.linalg.matrix_rank(M)
            r1 = np.linalg.matrix_rank(np.delete(M, dk, axis=1))
            ctx.ok("dropped_span", r0 == r1 == k - len(dk), f"dropped {dk} of {k} columns with rank {r0}, kept columns have rank {r1}")
            lo += k
    for k in range(P.npar):
        eta = X[k] @ bs[k]
        ctx.close("fitted", np.asarray(m.preds[k]).ravel(), eta, rtol=1e-7, atol=1e-7, msg=f"stored linear predictor {k} is X @ coef")
        if P.fam != "cox":
            mu = np.asarray(m.family.links[k].fi(eta)).ravel()
            ctx.close("fitted_mean", np.asarray(m.mus[k]).ravel(), mu, rtol=1e-6, atol=1e-7, msg=f"stored parameter {k} is the inverse link of its linear predictor")
    pens = m.overall_penalties
    ctx.ok("lambda_range", all(np.isfinite(t.lam) and t.lam > 0 for t in pens), "a smoothing parameter is not positive")
    if not pens:
        ctx.seen("no_penalty")
    if c.get("empty"):
        ctx.seen("empty_level")
    gain = None
    if pens and not d and not qefs:
        gain = lam_gain(P, m, g, Hr, b, ctx)
    ctx.sample = {"kind": P.kind, "dec": dec / (abs(llk) + 10), "gain": gain, "iter": int(m.info.iter)}


def lam_gain(P, m, g, Hr, b, ctx):
    pens = m.overall_penalties
    lam = np.array([float(t.lam) for t in pens])
    Sj = [t.S_J_emb.toarray() for t in pens]
    B = sum(s / np.abs(s).max() for s in Sj)
    e, U = np.linalg.eigh(B)
    if np.any((e > 1e-12 * e.max()) & (e < 1e-7 * e.max())):
        return None
    U = U[:, e > 1e-9 * e.max()]
    z = g + Hr @ b

    def reml(lm):
        T = sum(a * s for a, s in zip(lm, Sj))
        A = Hr + T
        d = 1 / np.sqrt(np.diag(A))
        Ac = A * d[:, None] * d[None, :]
        bb = d * np.linalg.solve(Ac, d * z)
        M = U.T @ T @ U
        dm = 1 / np.sqrt(np.diag(M))
        Mc = M * dm[:, None] * dm[None, :]
        sa, la = np.linalg.slogdet(Ac)
        return bb @ z / 2 + (np.linalg.slogdet(Mc)[1] - 2 * np.log(dm).sum()) / 2 - (la - 2 * np.log(d).sum()) / 2, np.linalg.cond(Ac), np.linalg.cond(Mc), sa

    r0, k1, k2, sa = reml(lam)
    if k1 > 1e9 or k2 > 1e10 or sa <= 0:
        return None
    best, at = 0.0, None
    for j in range(len(lam)):
        for f in (0.5, 0.8, 1.25, 2.0):
            lm = lam.copy()
            lm[j] *= f
            if 1e-7 <= lm[j] <= 1e7:
                q = reml(lm)[0] - r0
                if q > best:
                    best, at = q, (j, f)
    ctx.close("reml_gain", best, 0, rtol=0, atol=0.06, msg=f"restricted likelihood gained by changing a smoothing parameter {at} ({P.kind}, {P.kw}, lambda {np.round(lam, 4)})")
    return float(best)


def aggregate(recs, tier):
    out = []
    n = sum(r["status"] in ("held", "violated", "skip") for r in recs)
    bad = [r for r in recs if r["status"] == "skip" and "convergence" in r.get("why", "")]
    rec = {"case": {"aggregate": "convergence"}, "status": "held", "bad": [], "events": {"convergence_rate": 1}, "maxerr": {}}
    if n and len(bad) > 0.25 * n:
        rec["status"] = "violated"
        rec["bad"] = [{"monitor": "convergence_rate", "message": f"{len(bad)} of {n} fits of regular problems did not report convergence", "detail": [r["case"] for r in bad[:5]]}]
    out.append(rec)
    for key, lim, what in (("gain", 0.02, "smoothing parameters that can be improved"), ("dec", 1e-6, "coefficients that can be improved")):
        v = np.array([s[key] for s in ((r.get("sample") or {}) for r in recs) if s.get(key) is not None and s.get("kind") != "mvn"], float)
        rec = {"case": {"aggregate": key}, "status": "held", "bad": [], "events": {key + "_rate": 1}, "maxerr": {}}
        if len(v) > 20 and np.mean(v > lim) > 0.15:
            rec["status"] = "violated"
            rec["bad"] = [{"monitor": key + "_rate", "message": f"{int((v > lim).sum())} of {len(v)} fits have {what} (median {np.median(v):.3g})", "detail": None}]
        out.append(rec)
    for key, lim, what in [("qdec", 3e-4, "coefficients of quasi-Newton fits can be improved"), ("qnewton", 0.2, "quasi-Newton fits differ from Newton fits, in standard errors of the coefficients"),
                           ("start", 0.2, "fits from other starting values differ, in standard errors of the coefficients")]:
        v = np.array([s[key] for s in ((r.get("sample") or {}) for r in recs) if s.get(key) is not None], float)
        if len(v) > 7:
            rec = {"case": {"aggregate": key}, "status": "held", "bad": [], "events": {key + "_rate": 1}, "maxerr": {key: float(np.median(v) / lim)}}
            if np.median(v) > lim:
                rec["status"] = "violated"
                rec["bad"] = [{"monitor": key + "_rate", "message": f"{what} (median {np.median(v):.3g})", "detail": None}]
            out.append(rec)
    return out


# ------------------------------------------------------------------ the same model stated differently
def compare(ctx, key, P, a, b, msg, frac=0.02):
    if a.info.code != 0 or b.info.code != 0:
        ctx.skip("no convergence reported")
    X, bs, x = L.mats(P, a)
    V = (a.lvi.T @ a.lvi).toarray() if hasattr(a.lvi, "toarray") else a.lvi.T @ a.lvi
    lo = 0
    for k, X_ in enumerate(X):
        p = X_.shape[1]
        se = np.sqrt(np.maximum(((X_ @ V[lo:lo + p, lo:lo + p]) * X_).sum(axis=1), 0))
        dlt = np.abs(np.asarray(a.preds[k]).ravel() - np.asarray(b.preds[k]).ravel())
        ctx.ok(key, (dlt <= frac * se + 1e-5).all(), f"{msg}: linear predictor {k} differs by {np.max(dlt / (se + 1e-12)):.3g} standard errors ({P.kind})")
        lo += p
    ctx.close(key + "_edf", a.edf, b.edf, rtol=0.03, atol=0.1, msg=f"{msg}: edf")
    ctx.close(key + "_llk", a.get_llk(False), b.get_llk(False), rtol=1e-4, atol=0.15, msg=f"{msg}: log-likelihood")


def same(P, m, c, ctx):
    rng = np.random.default_rng([5, c["seed"]])
    if c["same"] == "gsmm":
        m2 = L.fit(P, gsmm=True)
        return compare(ctx, "same_gsmm", P, m, m2, "GAMMLSS and the same family as general model")
    if c["same"] == "method":
        kw = {"method": str(rng.choice(METH[1:]))}
        if rng.random() < 0.5:
            kw["repara"] = False
        df = P.df.copy()
        m2 = L.fit(P, **kw)
        return compare(ctx, "same_method", P, m, m2, f"{P.kw} and {kw}")
    if c["same"] == "built":
        m2 = L.fit(P, build_mat=[k == 0 for k in range(P.npar)], **({"repara": False} if c["seed"] % 2 else {}))
        s = np.sqrt(np.maximum((m.lvi.T @ m.lvi).diagonal(), 0)) if m.info.code == 0 else 1
        ctx.close("same_built", (np.asarray(m2.coef).ravel() - np.asarray(m.coef).ravel()) / (s + 1e-9), 0, rtol=0, atol=1e-6, msg="one model matrix for all parameters")
        ctx.close("same_built", m2.edf, m.edf, rtol=1e-7, atol=1e-7, msg="one model matrix for all parameters: edf")
        return None
    if c["same"] == "start":
        kw = {"init_lambda": [float(np.exp(rng.normal(1, 2))) for _ in m.overall_penalties]}
        if P.gsmm and rng.random() < 0.6:
            kw["init_coef"] = np.asarray(m.coef) + rng.normal(size=m.coef.shape) * 0.05
        if rng.random() < 0.4:
            kw["min_inner"] = 1
        if rng.random() < 0.3:
            kw["should_keep_drop"] = False
        m2 = L.fit(P, **kw)
        if m2.info.code != 0:
            ctx.skip("no convergence reported")
        ctx.seen("same_start")
        judge(P, m2, c, ctx)
        # the estimate itself is compared over all cases: some criteria have more than one optimum
        V = np.sqrt(np.maximum(np.asarray((m.lvi.T @ m.lvi).diagonal()).ravel(), 0))
        dlt = np.abs(np.asarray(m.coef).ravel() - np.asarray(m2.coef).ravel())
        ctx.sample["start"] = float(np.max(dlt / (V + 1e-6)))
        return None
    # GAMM family as a general model
    from mssm.models import GAMM
    import warnings
    fam = L.family(P, False)
    g = GAMM(L.formulas(P)[0], fam)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g.fit(progress_bar=False, n_cores=1)
    if g.info.code != 0:
        ctx.skip("no convergence reported")
    X, bs, x = L.mats(P, m)
    V = (m.lvi.T @ m.lvi).toarray()[:X[0].shape[1], :X[0].shape[1]]
    se = np.sqrt(np.maximum(((X[0] @ V) * X[0]).sum(axis=1), 0))
    dlt = np.abs(np.asarray(m.preds[0]).ravel() - np.asarray(g.preds[0]).ravel())
    # estimating the scale along with the coefficients moves smoothing parameters a little
    fr = {"gauss": 0.25, "gamma": 0.6}.get(P.fam, 0.05)
    ctx.ok("same_gamm", (dlt <= fr * se + 1e-4).all(), f"general model and GAMM: linear predictor differs by {np.max(dlt / (se + 1e-12)):.3g} standard errors ({P.fam})")
    if P.fam in ("poisson", "binom"):
        ctx.close("same_gamm_edf", m.edf, g.edf, rtol=0.03, atol=0.1, msg="edf of general model and GAMM")
    elif P.fam == "gauss":
        ctx.close("same_gamm_scale", np.exp(x[0]), g.scale, rtol=0.1, atol=0, msg="scale of general model and GAMM")
