"""Smoothing parameter uncertainty: covariance of the log smoothing parameters, corrected covariance and edf."""
import warnings

import numpy as np

from checks.c16 import loglik
from vlib import fit_ref as F
from vlib import lss_ref as L
from vlib import unc_ref as U

RULE = ("random converged GAMMs, location-scale and general models (with collinear columns, shared smoothing parameters, offsets, ar1 residuals, missing responses); analytic correction, both Monte Carlo corrections, "
        "one and several processes; non-trivial = the corrected covariance was compared with a dense recomputation or with independent Monte Carlo samples")
ASSUMPTIONS = ["models that do not report convergence are not judged", "model matrix, penalties, Hessian and smoothing parameters are the library's (judged separately)",
               "values are compared when the curvature of the score in the log smoothing parameters is clearly not zero (the generalised inverse jumps there)",
               "Monte Carlo corrections are compared with independent samples within their sampling error"]
REQUIRED = {"Vp": 40, "Vpr": 40, "J": 40, "root": 40, "V": 40, "V_first": 8, "edf": 40, "upper": 60, "lower": 60, "chol": 60, "t1": 20, "psd": 60, "gsmm": 10, "dropped": 2, "fd": 5, "mc2": 4, "mc3": 2, "mc_edf": 2, "proc": 3, "seeded": 3,
            "pure": 60, "mc_vp": 3, "priors": 8, "mean_coef": 60}
CASE_TIMEOUT = 400


def cases(tier, seed):
    rng = np.random.default_rng([22, seed])
    q = tier == "quick"
    out = []
    for k in range(72 if q else 900):
        c = {"k": "gam", "seed": int(rng.integers(2**31)), "fam": F.FAMS[k % 8], "method": str(rng.choice(["QR", "Chol"]))}
        j = (k // 8) % 6
        if j == 1:
            c["offset"] = str(rng.choice(["scalar", "array"]))
        if j == 2 and k % 2:
            c["ar"] = str(rng.choice(["one", "series"]))
            c["fam"] = "gauss"
        if j == 3 and k % 2:
            c["dup"] = True
            c["method"] = "QR"
        if j == 4 and k % 2:
            c["ids"] = True
        out.append(c)
    for k in range(24 if q else 250):
        c = {"k": "lss", "kind": ["gaum", "gammals", "mulnom", "cox", "g_gaum", "g_mulnom"][k % 6], "seed": int(rng.integers(2**31)), "method": str(rng.choice(["QR/Chol", "Chol"])), "na": bool(rng.random() < 0.3)}
        if c["kind"] == "cox":
            c["ties"] = bool(k % 2)
        out.append(c)
    for k in range(34 if q else 200):
        out.append({"k": "mc", "seed": int(rng.integers(2**31)), "fam": ["gauss", "poisson", "gauss", "binom1", "gauss"][k % 5], "grid": ["JJJ2", "JJJ2", "JJJ3"][k % 3], "w": bool((k // 3) % 2), "only": k % 5 == 3, "offset": "array" if k % 4 == 3 else None,
                    "prior": bool(k % 2), "n": 240, "nona": True})
    for k in range(10 if q else 60):
        out.append({"k": "vpmc", "seed": int(rng.integers(2**31)), "w": bool(k % 2), "fam": "gauss", "n": 240, "nona": True})
    for k in range(14 if q else 80):
        out.append({"k": "fd", "seed": int(rng.integers(2**31)), "fam": ["gauss", "poisson", "gauss", "binom1", "gamma", "gausslog"][k % 6], "n": 240, "nona": True, "offset": ["array", None, "scalar"][k % 3] if k > 5 else [None, "array"][k == 2]})
    for k in range(9 if q else 40):
        out.append({"k": "proc", "seed": int(rng.integers(2**31)), "fam": ["gauss", "poisson", "gamma"][k % 3], "grid": ["JJJ2", "JJJ3"][k % 2], "only": k % 5 == 4, "n": 240, "nona": True})
    for k in range(80 if q else 600):
        lss = k % 2 == 1
        c = {"k": "exact", "seed": int(rng.integers(2**31)), "grid": ["JJJ3", "JJJ2", "JJJ3"][k % 3], "w": [None, "reml", None, "prior"][(k // 2) % 4], "only": (k // 3) % 4 == 3, "vp": (k // 3) % 4 == 1 and k % 3 == 1, "rec": (k // 3) % 4 == 2, "n_c": 1 + (k // 6) % 2, "df": [3, 4, 10, 40][int(rng.integers(4 if k % 3 == 1 else 2))],
             "vcc": bool(rng.random() < 0.15), "nR": int(rng.choice([1, 8, 20], p=[0.1, 0.3, 0.6])), "nona": True}
        if c["vp"]:
            c["w"] = [None, "reml", "reml", "prior"][int(rng.integers(4))]
        if lss:
            c.update(kind=["mulnom", "cox", "g_poisson", "g_binom", "g_mulnom"][(k // 2) % 5], n=240, method=str(rng.choice(["QR/Chol", "Chol"])), one=bool(rng.random() < 0.2))
            c["specs"] = exact_specs(rng, c["kind"], c["one"])
        else:
            c.update(fam=["poisson", "gauss", "gamma", "binom1", "gausslog"][(k // 2) % 5], n=240, offset="array" if rng.random() < 0.3 else None, one=bool(rng.random() < 0.2))
        out.append(c)
    for k in range(10 if q else 100):
        out.append({"k": "prior", "seed": int(rng.integers(2**31))})
    return out


def exact_specs(rng, kind, one):
    v = [str(q) for q in rng.permutation(["x0", "x1", "x3"])]
    i = [] if kind == "cox" else [{"k": "i"}]
    a = i + [{"k": "f", "v": [v[0]], "nk": 7}] + ([] if one else [{"k": "f", "v": [v[1]], "nk": 6}])
    return [a, i + [{"k": "f", "v": [v[2]], "nk": 6}]] if kind.endswith("mulnom") else [a]


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def snap(m):
    return [np.asarray(m.coef).copy(), [t.lam for t in m.overall_penalties], U.dense(m.hessian).copy(), float(m.edf), float(m.scale), U.dense(m.lvi).copy(), None if m.preds is None else [np.asarray(q).copy() for q in m.preds]]


def same(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None:
        return b is None
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def psd(ctx, V, msg):
    V = np.asarray(V)
    s = np.sqrt(np.maximum(np.diag(V), 0))
    s[s == 0] = 1
    C = V / s[:, None] / s[None, :]
    ctx.ok("psd", np.allclose(C, C.T, atol=1e-7), f"{msg}: not symmetric")
    ctx.ok("psd", np.linalg.eigvalsh((C + C.T) / 2)[0] > -1e-6 * len(C), f"{msg}: negative variance of a combination of coefficients")


def judge(m, phi, ctx, tag):
    from mssm.src.python.utils import correct_VB, estimateVp

    before = snap(m)
    R = U.reference(m, phi)
    if R is None or not R.k:
        ctx.skip("ill-conditioned" if R is None else "no penalty")
    Vp, Vpr, r1, r2, ep, J = quiet(estimateVp, m, n_c=1)
    ctx.close("ep", np.ravel(ep), np.log([t.lam for t in m.overall_penalties]), rtol=1e-12, atol=1e-12, msg="mean of the log smoothing parameters")
    ctx.close("root", r1.T @ r1, Vp, rtol=1e-8, atol=1e-10, msg="root of the covariance of the log smoothing parameters", scale=np.abs(Vp).max())
    ctx.close("root", r2.T @ r2, Vpr, rtol=1e-8, atol=1e-10, msg="root of the regularised covariance", scale=np.abs(Vpr).max())
    kk = R.keep
    js = np.sqrt(np.maximum(np.diag(R.V), 1e-300))[:, None]
    ctx.close("J", (J / js)[kk], (R.J / js)[kk], rtol=1e-5, atol=1e-6, msg=f"derivatives of the coefficients with respect to the log smoothing parameters ({tag})", scale=np.abs(R.J / js)[kk].max())
    if R.d:
        ctx.seen("dropped")
        ctx.ok("dropped_J", np.abs(J[R.d]).max() == 0, "derivative of a dropped coefficient")
    if R.clear:
        tol = 2e-5 * max(1, np.abs(R.eig).max() / np.abs(R.eig).min())
        s = np.sqrt(np.diag(R.Vp)) + 1e-12
        ctx.close("Vp", Vp / s[:, None] / s[None, :], R.Vp / s[:, None] / s[None, :], rtol=0, atol=tol, msg=f"covariance of the log smoothing parameters is the inverse curvature of the REML score ({tag})")
        ctx.close("Vpr", Vpr, R.Vpr, rtol=tol, atol=tol, msg=f"regularised covariance of the log smoothing parameters ({tag})", scale=np.abs(R.Vpr).max())
    Vb = R.V
    for cc, t1 in ((True, True), (True, False), (False, False)):
        if not cc and m.info.dropped is not None:
            continue
        V, LV, vp, vpr, edf, tot, edf2, tot2, exp_, mc = quiet(correct_VB, m, grid_type="JJJ1", n_c=1, form_t1=t1, compute_Vcc=cc)
        V = U.dense(V)
        ctx.ok("none", exp_ is None and mc is None, "expected edf reported for the analytic correction")
        s = np.sqrt(np.maximum(np.diag(Vb), 1e-300))
        D = ((V - Vb) / s[:, None] / s[None, :])[np.ix_(kk, kk)]
        psd(ctx, V[np.ix_(kk, kk)], f"corrected covariance ({tag})")
        ctx.ok("lower_V", np.linalg.eigvalsh((D + D.T) / 2)[0] > -1e-5 * len(D), f"correction reduces the variance of a combination of coefficients ({tag})")
        if R.clear and not R.d:
            ref = Vb + R.J @ R.Vp @ R.J.T + (U.vcc(R) if cc else 0)
            tol = 1e-4 * max(1, np.abs(R.eig).max() / np.abs(R.eig).min())
            ctx.close("V" if cc else "V_first", V / s[:, None] / s[None, :], ref / s[:, None] / s[None, :], rtol=tol, atol=tol, msg=f"corrected covariance ({tag}, second term {cc})")
        raw = np.trace(V @ R.H)
        want = min(raw, R.upper)
        if cc or R.k:
            ctx.close("edf", float(tot), want, rtol=1e-5, atol=1e-5, msg=f"corrected edf is tr(V H), at most its upper bound ({tag})")
        ctx.ok("upper", float(tot) <= R.upper + 1e-5 * (1 + abs(R.upper)), f"corrected edf {tot} above the upper bound {R.upper}")
        ctx.ok("lower", float(tot) >= min(float(m.edf), R.upper) - 1e-4 * (1 + float(m.edf)), f"corrected edf {tot} below the edf {m.edf}")
        e = np.diag(V @ R.H) if raw <= R.upper else 2 * np.diag(R.F) - R.ffd
        if abs(raw - R.upper) > 1e-4:
            ctx.close("edf_coef", np.ravel(edf), e, rtol=1e-5, atol=1e-5, msg=f"corrected edf per coefficient ({tag})")
        ctx.close("t1", float(tot2), R.upper + (float(tot) - float(m.edf) if t1 else 0), rtol=1e-5, atol=1e-5, msg=f"bias corrected edf ({tag}, {t1})")
        ctx.close("t1_coef", np.ravel(edf2).sum(), float(tot2), rtol=1e-4, atol=1e-3, msg=f"bias corrected edf per coefficient ({tag}, {t1})") if not R.d else None
        LV = U.dense(LV)
        ctx.close("chol", ((LV @ LV.T) / s[:, None] / s[None, :])[np.ix_(kk, kk)], (V / s[:, None] / s[None, :])[np.ix_(kk, kk)], rtol=1e-6, atol=1e-6, msg=f"LV is a root of V ({tag}, dropped {R.d})")
        ctx.ok("chol", np.allclose(LV, np.tril(LV)) or bool(R.d), "LV is not lower triangular")
    ctx.ok("pure", same(before, snap(m)), f"correcting for uncertainty changes the fitted model ({tag})")


def run_gam(c, ctx):
    if c["k"] == "lss":
        P = L.problem(c)
        m = L.fit(P)
        if m.info.code != 0:
            ctx.skip("no convergence reported")
        ctx.seen("gsmm")
        judge(m, 1.0, ctx, c["kind"])
        return
    P = F.problem(c)
    if c.get("ids"):
        P.spec = [{"k": "i"}, {"k": "f", "v": ["x0"], "nk": 7, "id": 3}, {"k": "f", "v": ["x1"], "nk": 7, "id": 3}, {"k": "f", "v": ["x2"], "by": "fac", "nk": 6, "id": 5}]
    m = F.fit(P)
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    judge(m, float(m.scale), ctx, c["fam"])


# -- Monte Carlo corrections -------------------------------------------------------------------------

def candidate(P, X, y, off, pens, rho, U0, b0):
    """Penalised fit for given smoothing parameters; returns coefficients, scale, covariance, edf, REML score."""
    p, n = X.shape[1], X.shape[0]
    S = sum(np.exp(r) * s for r, (_, s) in zip(rho, pens))
    if P.fam == "gauss":
        W = np.ones(n)
        A = X.T @ X + S
        b = np.linalg.solve(A, X.T @ (y - off))
    else:
        b = b0.copy()
        for _ in range(60):
            g, W, _, mu = F.glm_parts(P.fam, y, X @ b + off)
            A = X.T @ (X * W[:, None]) + S
            st = np.linalg.solve(A, X.T @ g - S @ b)
            b = b + st
            if np.abs(st).max() < 1e-9:
                break
    Ai = np.linalg.inv(A)
    edf = p - np.trace(Ai @ S)
    eta = X @ b + off
    mu = F.lfi(P.fam, eta)
    if P.fam in ("gauss", "gausslog"):
        phi = ((y - mu) ** 2).sum() / (n - edf)
    else:
        phi = (((y - mu) / mu) ** 2).sum() / (n - edf) if P.fam == "gamma" else 1.0
    ll = loglik(P.fam, y, mu, phi)
    ldS = np.linalg.slogdet(U0.T @ S @ U0 / phi)[1]
    reml = ll - 0.5 * b @ S @ b / phi + 0.5 * ldS - 0.5 * np.linalg.slogdet(A / phi)[1]
    return b, phi, phi * Ai, edf, reml


def mc_setup(c, ctx):
    P = F.problem(c)
    v = np.random.default_rng(c["seed"]).permutation(["x0", "x1", "x2"])
    P.spec = [{"k": "i"}, {"k": "f", "v": [str(v[0])], "nk": 8}, {"k": "f", "v": [str(v[1])], "nk": 6}]
    m = F.fit(P, method="Chol")
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    R = U.reference(m, float(m.scale))
    if R is None or not R.clear or (R.eig < 0).any():
        ctx.skip("curvature not clear")
    if max(abs(np.log(t.lam)) for t in m.overall_penalties) > 12:
        ctx.skip("extreme smoothing parameter")
    return P, m, R


def mvt(rng, loc, shape, df, size):
    z = rng.multivariate_normal(np.zeros(len(loc)), shape, size)
    return loc + z / np.sqrt(rng.chisquare(df, size) / df)[:, None]


def logmvt(x, loc, shape, df):
    import scipy.stats as st

    return st.multivariate_t(loc=loc, shape=shape, df=df).logpdf(x)


def run_mc(c, ctx):
    from mssm.src.python.utils import MVUniformRhoPrior, correct_VB

    P, m, R = mc_setup(c, ctx)
    X, y, off = U.dense(m.get_mmat()), P.y, F.off(P)
    nR, df = 150, 40
    prior = MVUniformRhoPrior(-20, 20) if (c["prior"] and c["w"]) else None
    kw = dict(grid_type=c["grid"], nR=nR, n_c=1, use_importance_weights=c["w"], prior=prior, only_expected_edf=c["only"], df=df)
    before = snap(m)
    out = quiet(correct_VB, m, seed=c["seed"] % 1000, **kw)
    ctx.ok("pure", same(before, snap(m)), "correcting for uncertainty changes the fitted model")
    out2 = quiet(correct_VB, m, seed=c["seed"] % 1000, **kw)
    ctx.ok("seeded", all((a is None and b is None) or np.array_equal(U.dense(a), U.dense(b)) for a, b in zip(out, out2)), "same seed, different correction")
    V, LV, vp, vpr, edf, tot, edf2, tot2, exp_, _ = out
    lam = np.array([t.lam for t in m.overall_penalties])
    # independent samples
    rng = np.random.default_rng(c["seed"] + 5)
    N = 1200
    rho = mvt(rng, np.log(lam), R.Vpr, df, N)
    bs, Vs, es, rs = [], [], [], []
    for r in rho:
        b, phi, Vb, e, reml = candidate(P, X, y, off, R.pens, r, R.U, R.b)
        bs.append(b), Vs.append(Vb), es.append(e), rs.append(reml)
    rs = np.array(rs)
    if c["w"]:
        lw = rs.copy()
        if prior is not None:
            lw = lw - logmvt(rho, np.log(lam), R.Vpr, df)
            lw[(np.abs(rho) > 20).any(axis=1)] = -np.inf
    else:
        lw = np.zeros(N)
    w = np.exp(lw - lw.max())
    w /= w.sum()
    ess = 1 / (w**2).sum() / N
    H = R.H
    tr = np.array([np.sum(v * H) for v in Vs])
    es = np.array(es)
    Vc = np.trace(R.J @ R.Vp @ R.J.T @ H)

    def err(x):
        mu = (w * x).sum()
        return mu, 6 * np.sqrt((w * (x - mu) ** 2).sum()) * np.sqrt(1 / (nR * ess) + 1 / (N * ess)) + 3 * abs(x - mu).max() / nR * (1 if c["w"] else 0.3)

    if ess < 0.3:
        ctx.skip("importance weights too uneven")
    B = np.array(bs)
    bm = (w[:, None] * B).sum(0)
    q = np.array([(b - bm) @ H @ (b - bm) for b in B])
    if not c["only"]:
        # Hessian at the posterior mean
        o = quiet(correct_VB, m, seed=c["seed"] % 1000, **{**kw, "recompute_H": True})
        mc = np.asarray(o[9]).ravel()
        for j in range(len(mc)):
            mj, tj = err(B[:, j])
            ctx.close("mean_coef", float(mc[j]), mj, rtol=0, atol=tj + 1e-4, msg=f"posterior mean of coefficient {j} ({c['fam']})")
        ctx.ok("pure", same(before, snap(m)), "recomputing the Hessian changes the fitted model")
        ctx.ok("lower", float(o[5]) >= 0 and np.isfinite(float(o[5])), "corrected edf with recomputed Hessian")
        ctx.ok("upper", float(o[5]) <= R.upper + 1e-5, "corrected edf above its bound")
    if c["only"]:
        mu, tol = err(tr)
        if c["grid"] == "JJJ2":
            want = max(mu, float(m.edf)) + Vc
        else:
            m3, t3 = err(q)
            want, tol = max(mu, float(m.edf)) + max(m3, Vc), tol + t3
        ctx.close("mc_edf", float(exp_), want, rtol=0, atol=tol + 1e-3, msg=f"expected edf, Monte Carlo correction {c['grid']} ({c['fam']})")
        ctx.ok("mc_edf", V is None and tot is None, "covariance reported although only the edf was asked for")
        ctx.ok("lower", float(exp_) >= float(m.edf) - 1e-6, "expected edf below the edf")
        return
    V = U.dense(V)
    got = float(np.sum(V * H))
    if c["grid"] == "JJJ2":
        mu, tol = err(tr)
        want = max(mu, float(m.edf)) + Vc
        ctx.close("mc2", got, want, rtol=0, atol=tol + 1e-3, msg=f"tr(V H), Monte Carlo correction JJJ2 ({c['fam']}, weights {c['w']})")
    else:
        mu, tol = err(tr)
        m3, t3 = err(q)
        v1 = float(np.trace((R.V + R.J @ R.Vp @ R.J.T + U.vcc(R)) @ H))
        want, tol = max(mu + m3, v1), tol + t3
        ctx.close("mc3", got, want, rtol=0, atol=tol + 1e-3, msg=f"tr(V H), Monte Carlo correction JJJ3 ({c['fam']}, weights {c['w']})")
        ctx.ok("mc3", got >= v1 - 1e-3, "Monte Carlo correction below the analytic one")
    ctx.sample = {"got": got, "want": want, "tol": tol}
    psd(ctx, V, "corrected covariance")
    s = np.sqrt(np.diag(V))
    LV = U.dense(LV)
    ctx.close("chol", (LV @ LV.T) / s[:, None] / s[None, :], V / s[:, None] / s[None, :], rtol=1e-6, atol=1e-6, msg="LV is a root of V")
    ctx.close("edf", float(tot), min(got, R.upper), rtol=1e-5, atol=1e-5, msg="corrected edf is tr(V H), at most its upper bound")
    ctx.ok("upper", float(tot) <= R.upper + 1e-5, "corrected edf above its bound")
    ctx.ok("lower", float(tot) >= min(float(m.edf), R.upper) - 1e-4, "corrected edf below the edf")


def run_vpmc(c, ctx):
    """Monte Carlo estimate of the covariance of the log smoothing parameters."""
    from mssm.src.python.utils import estimateVp

    P, m, R = mc_setup(c, ctx)
    X, y, off = U.dense(m.get_mmat()), P.y, F.off(P)
    lam = np.array([t.lam for t in m.overall_penalties])
    nR, N, df = 300, 1500, 40
    Vp, Vpr, r1, r2, ep, J = quiet(estimateVp, m, nR=nR, grid_type="JJJ2", n_c=1, df=df, use_importance_weights=c["w"], seed=c["seed"] % 1000)
    rng = np.random.default_rng(c["seed"] + 5)
    rho = mvt(rng, np.log(lam), R.Vpr, df, N)
    lw = np.array([candidate(P, X, y, off, R.pens, r, R.U, R.b)[4] for r in rho]) if c["w"] else np.zeros(N)
    w = np.exp(lw - lw.max())
    w /= w.sum()
    ess = 1 / (w**2).sum() / N
    if ess < 0.3:
        ctx.skip("importance weights too uneven")
    mu = (w[:, None] * rho).sum(0)
    C = ((rho - mu) * w[:, None]).T @ (rho - mu)
    s = np.sqrt(np.diag(C))
    k = np.sqrt(1 / (nR * ess) + 1 / (N * ess))
    ctx.close("mc_vp", (np.ravel(ep) - mu) / s, 0 * mu, rtol=0, atol=6 * k, msg="mean of the log smoothing parameters, Monte Carlo")
    ctx.close("mc_vp", Vp / s[:, None] / s[None, :], C / s[:, None] / s[None, :], rtol=0, atol=12 * k, msg="covariance of the log smoothing parameters, Monte Carlo")
    ctx.close("root", r1.T @ r1, Vp, rtol=1e-8, atol=1e-8, msg="root", scale=np.abs(Vp).max())
    ctx.ok("seeded", np.array_equal(Vp, quiet(estimateVp, m, nR=nR, grid_type="JJJ2", n_c=1, df=df, use_importance_weights=c["w"], seed=c["seed"] % 1000)[0]), "same seed, different estimate")


def run_fd(c, ctx):
    """Finite differences of the REML score."""
    from mssm.src.python.utils import estimateVp

    P, m, R = mc_setup(c, ctx)
    X, y, off = U.dense(m.get_mmat()), P.y, F.off(P)
    r0 = np.log([t.lam for t in m.overall_penalties])
    f = lambda r: candidate(P, X, y, off, R.pens, r, R.U, R.b)[4]
    k, h = len(r0), 0.05
    N = np.zeros((k, k))
    E = np.eye(k) * h
    for i in range(k):
        for j in range(k):
            # Richardson extrapolation of central second differences
            def d(s):
                return (f(r0 + s * E[i] + s * E[j]) - f(r0 + s * E[i] - s * E[j]) - f(r0 - s * E[i] + s * E[j]) + f(r0 - s * E[i] - s * E[j])) / (4 * h * h * s * s)
            N[i, j] = -(4 * d(1) - d(2)) / 3
    e, Q = np.linalg.eigh((N + N.T) / 2)
    if np.abs(e).min() < 1e-2:
        ctx.skip("flat score")
    Vp = quiet(estimateVp, m, n_c=1, Vp_fidiff=True)[0]
    pos = e > 0
    ref = (Q[:, pos] / e[pos]) @ Q[:, pos].T
    s = np.sqrt(np.diag(ref)) + 1e-12
    ctx.close("fd", Vp / s[:, None] / s[None, :], ref / s[:, None] / s[None, :], rtol=0, atol=2e-2 * max(1, np.abs(e).max() / np.abs(e).min()), msg=f"covariance of the log smoothing parameters by finite differences ({c['fam']})")


def run_proc(c, ctx):
    """One process and several give the same correction."""
    from mssm.src.python.utils import correct_VB

    P, m, R = mc_setup(c, ctx)
    kw = dict(grid_type=c["grid"], nR=25, seed=c["seed"] % 1000, only_expected_edf=c["only"], use_importance_weights=True)
    a = quiet(correct_VB, m, n_c=1, **kw)
    b = quiet(correct_VB, m, n_c=2, **kw)
    for x, y, nm in zip(a, b, ["V", "LV", "Vp", "Vpr", "edf", "total edf", "edf2", "total edf2", "expected edf", "mean coef"]):
        if x is None or y is None:
            ctx.ok("proc", x is None and y is None, f"{nm} reported by one of them only")
            continue
        x, y = U.dense(x), U.dense(y)
        ctx.close("proc", y, x, rtol=1e-5, atol=1e-6, msg=f"{nm}: two processes against one ({c['fam']}, {c['grid']})", scale=np.abs(x).max())


class At:
    """A model's matrices and links with other coefficients."""

    def __init__(self, m, b):
        self.m, self.coef, self.family = m, b.reshape(-1, 1), m.family

    def get_mmat(self):
        return self.m.get_mmat()


def candidate_lss(P, m, pens, rho, U0, b0):
    S = sum(np.exp(r) * s for r, (_, s) in zip(rho, pens))
    b = b0.copy()
    ll, g, H = L.score(P, At(m, b))
    for _ in range(100):
        pl = ll - 0.5 * b @ S @ b
        st = np.linalg.solve(S - H, g - S @ b)
        t = 1.0
        while t > 1e-6:
            nb = b + t * st
            ll, g, H = L.score(P, At(m, nb))
            if ll - 0.5 * nb @ S @ nb >= pl - 1e-8 * abs(pl):
                break
            t /= 2
        b = nb
        if np.abs(st).max() < 1e-7:
            break
    A = S - H
    ldS = np.linalg.slogdet(U0.T @ S @ U0)[1]
    return b, 1.0, np.linalg.inv(A), None, ll - 0.5 * b @ S @ b + 0.5 * ldS - 0.5 * np.linalg.slogdet(A)[1]


def run_exact(c, ctx):
    """The Monte Carlo corrections recomputed from the smoothing parameters they drew."""
    import scipy.stats as st

    from mssm.src.python.utils import MVUniformRhoPrior, correct_VB, estimateVp

    lss = "kind" in c
    for k in range(3 if lss else 6):
        c = {**c, "seed": c["seed"] + k}
        if lss:
            P = L.problem(c)
            m = L.fit(P)
        else:
            P = F.problem(c)
            v = np.random.default_rng(c["seed"]).permutation(["x0", "x1", "x3"])
            P.spec = [{"k": "i"}, {"k": "f", "v": [str(v[0])], "nk": 8}] + ([] if c["one"] else [{"k": "f", "v": [str(v[1])], "nk": 6}])
            m = F.fit(P, method="Chol")
        if m.info.code != 0:
            continue
        R = U.reference(m, 1.0 if lss else float(m.scale))
        if R is None or not R.clear or (R.eig < 0).any() or R.d:
            continue
        lam = np.array([t.lam for t in m.overall_penalties])
        if np.abs(np.log(lam)).max() < 10:
            break
    else:
        ctx.skip("curvature not clear")
    prior = MVUniformRhoPrior(-25, 25) if c["w"] == "prior" else None
    kw = dict(grid_type=c["grid"], nR=c["nR"], n_c=c["n_c"], df=c["df"], use_importance_weights=c["w"] is not None, prior=prior, only_expected_edf=c["only"], recompute_H=c["rec"], compute_Vcc=c["vcc"], seed=c["seed"] % 1000)
    drawn = []
    orig = st.multivariate_t.rvs

    def rvs(*a, **k):
        r = orig(*a, **k)
        drawn.append(np.array(r, float).reshape(c["nR"], -1))
        return r

    before = snap(m)
    st.multivariate_t.rvs = rvs
    try:
        if c["vp"]:
            Vm, _, r1, r2, em, Jm = quiet(estimateVp, m, **{k: q for k, q in kw.items() if k not in ("only_expected_edf", "recompute_H", "compute_Vcc")})
            vpr = None
        else:
            V, LV, vp, vpr, edf, tot, edf2, tot2, exp_, mc = quiet(correct_VB, m, **kw)
    finally:
        del st.multivariate_t.rvs
    ctx.ok("pure", same(before, snap(m)), "correcting for uncertainty changes the fitted model")
    if len(drawn) != 1 or drawn[0].shape[1] != R.k:
        ctx.skip("draws not observed")
    rho = drawn[0]
    Vpr = vpr if vpr is not None else R.Vpr
    dist = np.abs(np.exp(rho) - lam).max(axis=1)
    near = 0.1 * np.sqrt(np.diag(Vpr)).min()
    if np.any(np.abs(dist - near) < 1e-3 * near):
        ctx.skip("unclear whether the estimate is added")
    if not np.any(dist < near):
        rho = np.vstack([np.log(lam), rho])
    if np.abs(rho).max() > 15:
        ctx.skip("extreme draw")
    X = None if lss else U.dense(m.get_mmat())
    cand = []
    try:
        for r in rho:
            q = candidate_lss(P, m, R.pens, r, R.U, R.b) if lss else candidate(P, X, P.y, F.off(P), R.pens, r, R.U, R.b)
            if not np.isfinite(q[4]):
                raise np.linalg.LinAlgError
            cand.append(q)
    except np.linalg.LinAlgError:
        ctx.skip("reference fit failed")
    B, Vs, rem = np.array([q[0] for q in cand]), np.array([q[2] for q in cand]), np.array([q[4] for q in cand])
    lw = np.zeros(len(rho)) if c["w"] is None else rem
    if prior is not None:
        lw = lw - logmvt(rho, np.log(lam), Vpr, c["df"])
    w = np.exp(lw - lw.max())
    w /= w.sum()
    if c["vp"]:
        rm = w @ rho
        C = ((rho - rm) * w[:, None]).T @ (rho - rm)
        t = f"{c.get('kind') or c['fam']}, weights {c['w']}, {c['n_c']} processes, {len(rho)} samples"
        ctx.close("exact_Vp", np.ravel(em), rm, rtol=1e-4, atol=1e-3, msg=f"mean of the log smoothing parameters from the samples ({t})")
        ctx.close("exact_Vp", Vm, C, rtol=1e-3, atol=1e-3, msg=f"covariance of the log smoothing parameters from the samples ({t})", scale=np.abs(C).max())
        ctx.close("root", r1.T @ r1, Vm, rtol=1e-8, atol=1e-8, msg="root", scale=np.abs(Vm).max())
        return
    H = R.H
    bm = w @ B
    D = B - bm
    EV = np.einsum("i,ijk->jk", w, Vs)
    CB = (D * w[:, None]).T @ D
    Vc = R.J @ R.Vp @ R.J.T
    name = c.get("kind") or c["fam"]
    tag = f"{name}, {c['grid']}, weights {c['w']}, {c['n_c']} processes, {len(rho)} samples"
    tol = 2e-3
    e0 = float(m.edf)
    if c["only"]:
        want = max(np.sum(EV * H), e0) + (np.sum(Vc * H) if c["grid"] == "JJJ2" else max(np.sum(Vc * H), np.sum(CB * H)))
        ctx.close("exact_edf", float(exp_), want, rtol=1e-3, atol=tol, msg=f"expected edf from the samples ({tag})")
        return
    sd = np.sqrt(np.diag(R.V))
    Hm = H
    if c["rec"]:
        ctx.close("exact_mean", np.ravel(mc) / sd, bm / sd, rtol=0, atol=tol, msg=f"posterior mean of the coefficients from the samples ({tag})")
        if lss:
            Hm = -L.score(P, At(m, bm))[2]
        else:
            eta = X @ bm + F.off(P)
            if name in ("poisson", "binom1"):
                Hm = X.T @ (X * F.glm_parts(name, P.y, eta)[1][:, None])
            else:
                Hm = None
    else:
        ctx.ok("exact_mean", mc is None, "posterior mean reported")
    V = U.dense(V)
    free = False
    if Hm is not None:
        bound = R.V + Vc + (U.vcc(R) if c["vcc"] else 0)
        if c["grid"] == "JJJ2":
            mine, low, lim = np.sum(EV * Hm), e0, None
            ref = EV + Vc
            bound = R.V + Vc
        else:
            ref = EV + CB
            mine, low = np.sum(ref * Hm), np.sum(bound * H)
        if abs(mine - low) < 5e-3 * (1 + low):
            ctx.skip("at its lower bound")
        free = mine > low
        if not free:
            ref, Hm = bound, H
        s = np.sqrt(np.diag(ref))
        ctx.close("exact_V", V / s[:, None] / s[None, :], ref / s[:, None] / s[None, :], rtol=0, atol=2e-3, msg=f"covariance of the coefficients from the samples ({tag})")
        ctx.close("exact_tot", float(tot), min(np.sum(ref * Hm), R.upper), rtol=1e-3, atol=tol, msg=f"corrected edf from the samples ({tag})")
        if free:
            ctx.seen("exact_free")
            ctx.seen(f"free_{c['grid']}_{c['n_c']}")
            ctx.seen("exact_" + ("lss" if lss else "gam"))
    ctx.sample = {"free": bool(free), "kind": name, "grid": c["grid"]}


def run_prior(c, ctx):
    from mssm.src.python.utils import CenteredUniformRhoPriors, MVUniformRhoPrior

    rng = np.random.default_rng(c["seed"])
    k = int(rng.integers(1, 5))
    a, b = -float(rng.uniform(1, 20)), float(rng.uniform(1, 20))
    mv = MVUniformRhoPrior(a, b)
    mr, w = rng.uniform(-8, 8, k), float(rng.uniform(0.5, 4))
    ce = CenteredUniformRhoPriors(mr, c=w)
    rho = rng.uniform(-25, 25, (40, k))
    rho[:10] = rng.uniform(-1, 1, (10, k))
    rho[10:20] = mr + rng.uniform(-w, w, (10, k))
    ins = ((rho >= a) & (rho <= b)).all(axis=1)
    ctx.close("priors", np.exp(mv.logpdf(rho)), np.where(ins, (b - a) ** -float(k), 0), rtol=1e-10, atol=0, msg="uniform prior density")
    lo, hi = np.maximum(mr - w, np.log(1e-7)), np.minimum(mr + w, np.log(1e7))
    ins = ((rho >= lo) & (rho <= hi)).all(axis=1)
    ctx.close("priors", np.exp(ce.logpdf(rho)), np.where(ins, 1 / np.prod(hi - lo), 0), rtol=1e-10, atol=0, msg="centered uniform prior density")
    for pr, nm in ((mv, "uniform"), (ce, "centered")):
        cp = rho.copy()
        v = pr.make_valid(rho)
        ctx.ok("priors", np.array_equal(cp, rho), "make_valid changes its argument")
        ctx.ok("priors", np.isfinite(pr.logpdf(v)).all(), f"make_valid of the {nm} prior leaves values outside its support")
        i = np.isfinite(pr.logpdf(rho))
        ctx.ok("priors", np.array_equal(v[i], rho[i]), f"make_valid of the {nm} prior changes valid values")
        ctx.ok("priors", np.all(pr.dlpdrho(rho) == 0) and pr.dlpdrho(rho).shape == rho.shape, "gradient of a uniform density")


def run_case(c, ctx):
    {"gam": run_gam, "lss": run_gam, "mc": run_mc, "vpmc": run_vpmc, "fd": run_fd, "proc": run_proc, "exact": run_exact, "prior": run_prior}[c["k"]](c, ctx)
