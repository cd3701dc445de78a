"""Families of general smooth models: likelihood, score, Hessian, hazards, survival, residuals, draws."""
import warnings

import numpy as np
import scipy.sparse as sp
import scipy.special as ss
import scipy.stats as st

RULE = ("random model matrices, coefficients and responses for proportional hazards models (tied, censored times), multivariate normal models (2-4 means, any links), "
        "every GAMMLSS and GAMM family wrapped as a general family, and a user family stating its log-likelihood only; "
        "non-trivial = reported quantities were compared with an independent evaluation or with derivatives of it")
ASSUMPTIONS = ["ties are handled as in Breslow's partial likelihood, the multivariate normal log-likelihood leaves out the constant involving pi, as stated by the library's source (Wood, Pya, Saefken 2016)",
               "GAMMLSS families of the library state expected second derivatives with respect to the parameters where they do (judged separately); the Hessian is judged as the one implied by the family's derivatives"]
REQUIRED = {"cox_llk": 15, "cox_hessian": 15, "cox_survival": 30, "cox_resid": 15, "mvn_gradient": 10, "mvn_hessian": 10, "wrap_gradient": 15, "wrap_hessian": 15, "user_hessian": 5}
CASE_TIMEOUT = 240
WR = ["gauss", "gausslog", "gamma", "invgauss", "poisson", "binom", "t", "tlog", "gaum", "gaumlog", "gammals", "mulnom"]


def cases(tier, seed):
    rng = np.random.default_rng([7, seed])
    q = tier == "quick"
    out = []
    for k in range(30 if q else 600):
        out.append({"kind": "cox", "seed": int(rng.integers(2**31)), "n": int(rng.choice([5, 12, 40, 150])), "ties": bool(k % 2), "k": int(rng.integers(1, 6))})
    for k in range(24 if q else 500):
        out.append({"kind": "mvn", "seed": int(rng.integers(2**31)), "m": 2 + k % 3, "n": int(rng.choice([6, 40, 200])), "links": bool(k % 3 == 2), "shared": bool(k % 4 == 1)})
    for k in range(48 if q else 960):
        out.append({"kind": "wrap", "seed": int(rng.integers(2**31)), "fam": WR[k % len(WR)], "n": int(rng.choice([30, 120]))})
    for k in range(8 if q else 100):
        out.append({"kind": "user", "seed": int(rng.integers(2**31)), "n": 60})
    for k in range(2 if q else 10):
        out.append({"kind": "draws", "seed": int(rng.integers(2**31)), "m": 2 + k % 2})
    return out


def run_case(c, ctx):
    rng = np.random.default_rng(c["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            {"cox": cox, "mvn": mvn, "wrap": wrap, "user": user, "draws": draws}[c["kind"]](c, ctx, rng)


def rand_X(rng, n, k, sparse=True):
    X = rng.normal(0, 1, (n, k))
    if rng.random() < 0.5:
        X[rng.random((n, k)) < 0.3] = 0.0
    if rng.random() < 0.6:
        X[:, 0] = 1.0
    return X


def num_grad(f, b, h=1e-5):
    g = np.zeros(len(b))
    for j in range(len(b)):
        s = h * max(1.0, abs(b[j]))
        e = np.zeros(len(b))
        e[j] = s
        g[j] = (8 * (f(b + e) - f(b - e)) - (f(b + 2 * e) - f(b - 2 * e))) / (12 * s)
    return g


def num_jac(g, b, h=1e-4):
    cols = []
    for j in range(len(b)):
        s = h * max(1.0, abs(b[j]))
        e = np.zeros(len(b))
        e[j] = s
        cols.append((8 * (g(b + e) - g(b - e)) - (g(b + 2 * e) - g(b - 2 * e))) / (12 * s))
    return np.array(cols).T


# ------------------------------------------------------------------ proportional hazards
def cox(c, ctx, rng):
    from mssm.src.python.exp_fam import PropHaz

    n, k = c["n"], c["k"]
    X = rng.normal(0, 1, (n, k))
    if c["ties"]:
        t = rng.integers(1, max(3, n // 4), n)
    else:
        t = rng.permutation(np.arange(1, 10 * n))[:n]
    d = (rng.random(n) < rng.choice([0.3, 0.7, 1.0])).astype(np.int64)
    if rng.random() < 0.2:
        d[np.argmax(t)] = 0
    o = np.argsort(-t, kind="stable")
    t, d, X = t[o], d[o], X[o]
    u, inv = np.unique(t, return_inverse=True)
    ut, r = np.flip(u), np.abs(inv - inv.max())
    fam = PropHaz(ut, r)
    Xs = [sp.csc_array(X)]
    D = d.reshape(-1, 1)
    if c["seed"] % 4 == 0:
        D = D.astype(float)
        ctx.seen("cox_float")
    for rep in range(2):
        b = rng.normal(0, 0.7, k)
        B = b.reshape(-1, 1)
        eta = X @ b
        g = np.exp(eta)
        llk, gr, H = 0.0, np.zeros(k), np.zeros((k, k))
        ch = {}
        for i in np.where(d == 1)[0]:
            R = t >= t[i]
            s0, s1, s2 = g[R].sum(), X[R].T @ g[R], (X[R] * g[R][:, None]).T @ X[R]
            llk += eta[i] - np.log(s0)
            gr += X[i] - s1 / s0
            H -= s2 / s0 - np.outer(s1, s1) / s0**2
        ctx.close("cox_llk", fam.llk(B, [], [D], Xs), llk, rtol=1e-10, atol=1e-9, msg="partial log-likelihood")
        ctx.close("cox_gradient", np.asarray(fam.gradient(B, [], [D], Xs)).ravel(), gr, rtol=1e-9, atol=1e-9, msg="gradient of the partial log-likelihood", scale=1 + np.abs(gr).max())
        ctx.close("cox_hessian", fam.hessian(B, [], [D], Xs).toarray(), H, rtol=1e-9, atol=1e-9, msg="Hessian of the partial log-likelihood", scale=1 + np.abs(H).max())
        # cumulated baseline hazard at every time, with what its variance needs
        haz = lambda s: sum(1.0 / g[t >= t[i]].sum() for i in np.where((d == 1) & (t <= s))[0])
        q2 = lambda s: sum(1.0 / g[t >= t[i]].sum() ** 2 for i in np.where((d == 1) & (t <= s))[0])
        av = lambda s: sum((X[t >= t[i]].T @ g[t >= t[i]] / g[t >= t[i]].sum() ** 2 for i in np.where((d == 1) & (t <= s))[0]), np.zeros(k))
        H0 = np.array([haz(s) for s in ut])
        ctx.close("cox_baseline", np.asarray(fam.get_baseline_hazard(B, D, Xs)).ravel(), H0, rtol=1e-9, atol=1e-12, msg=f"cumulative baseline hazard (evaluation {rep} of the same family)")
        A = rng.normal(0, 0.3, (k, k))
        V = A @ A.T + 0.01 * np.eye(k)
        xn = rng.normal(0, 1, (int(rng.integers(1, 4)), k))
        if rng.random() < 0.5:
            xq = sp.csc_array(xn)
        else:
            xq = xn
        ts = [int(ut[0]), int(ut[-1]), *[int(a) for a in rng.choice(ut, 2)]]
        mid = [float(a) + 0.5 for a in rng.choice(ut, 2) if a + 1 <= ut[0]] + [float(ut[0]) + 3, float(ut[-1]) - 0.5]
        for s in ts + mid:
            h = haz(s)
            S = np.exp(-h * np.exp(xn @ b))
            v = av(s)[None, :] - xn * h
            se = np.exp(xn @ b) * S * np.sqrt(q2(s) + ((v @ V) * v).sum(axis=1))
            S1, s1 = fam.get_survival(B, Xs, D, s, xq, sp.csc_array(V) if rng.random() < 0.5 else V)
            ctx.close("cox_survival", np.asarray(S1).ravel(), S, rtol=1e-9, atol=1e-12, msg=f"survival at time {s} ({'an' if s in ut else 'no'} event time; times {ut[:3]}..{ut[-2:]})")
            ctx.close("cox_survival_se", np.asarray(s1).ravel(), se, rtol=1e-8, atol=1e-12, msg=f"standard error of the survival at time {s}")
        lam = np.array([H0[j] for j in r]) * g
        mart = d - lam
        for typ, ref in (("Martingale", mart), ("Deviance", np.sign(mart) * np.sqrt(np.maximum(-2 * (mart + d * np.log(np.maximum(lam, np.finfo(float).eps))), 0)))):
            res = np.asarray(fam.get_resid(B, [], [D], Xs, resid_type=typ)).ravel()
            ok = np.isfinite(res) | (np.abs(ref) > 1e-6)
            ctx.close("cox_resid", res[ok], ref[ok], rtol=1e-7, atol=1e-6, msg=f"{typ} residuals")
            back = np.argsort(o)
            res2 = np.asarray(fam.get_resid(B, [], [D], Xs, resid_type=typ, reorder=back)).ravel()
            ctx.ok("cox_reorder", np.array_equal(res2[np.isfinite(res2)], res[back][np.isfinite(res[back])]), "re-ordered residuals")
        ctx.close("cox_mart_sum", np.asarray(fam.get_resid(B, [], [D], Xs)).sum(), 0, rtol=0, atol=1e-7 * n, msg="Martingale residuals sum to zero")
    if c["ties"]:
        ctx.seen("ties")
    ctx.sample = {"kind": "cox", "llk": float(llk), "events": int(d.sum())}


# ------------------------------------------------------------------ multivariate normal
def mk_links(rng, m, any_):
    from mssm.src.python.exp_fam import LOG, Identity, LOGb

    if not any_:
        return [Identity() for _ in range(m)]
    return [[Identity(), LOG(), LOGb(-0.5)][int(a)] for a in rng.integers(0, 3, m)]


def mvn(c, ctx, rng):
    from mssm.src.python.exp_fam import MultiGauss

    m, n = c["m"], c["n"]
    links = mk_links(rng, m, c["links"])
    fam = MultiGauss(m, links)
    ctx.ok("mvn_extra", fam.extra_coef == m * (m + 1) // 2, "number of covariance coefficients")
    Xd = [rand_X(rng, n, int(rng.integers(1, 4))) for _ in range(m)]
    if c["shared"]:
        Xd = [Xd[0] for _ in range(m)]
    Xs = [sp.csc_array(x) for x in Xd]
    if c["shared"]:
        Xs = [Xs[0]] + [None] * (m - 1)
    ks = [x.shape[1] for x in Xd]
    split = list(np.cumsum(ks))
    nth = m * (m + 1) // 2
    p = sum(ks) + nth
    y = rng.normal(0, 1.5, (n, m))
    ys = [y[:, [j]] for j in range(m)]

    def unpack(b):
        parts = np.split(b, split)
        mu = np.array([np.asarray(links[j].fi(Xd[j] @ parts[j])).ravel() for j in range(m)]).T
        R = np.zeros((m, m))
        R[np.triu_indices(m)] = parts[m]
        R[np.diag_indices(m)] = np.exp(np.diag(R))
        return mu, R

    def ll(b):
        mu, R = unpack(b)
        e = (y - mu) @ R.T
        return -0.5 * (e**2).sum() + n * np.log(np.diag(R)).sum()

    for _ in range(2):
        b = rng.normal(0, 0.4, p)
        B = b.reshape(-1, 1)
        mu, R = unpack(b)
        cov = np.linalg.inv(R.T @ R)
        ref = sum(st.multivariate_normal.logpdf(y[i], mu[i], cov) for i in range(n)) + n * m / 2 * np.log(2 * np.pi)
        ctx.close("mvn_llk", fam.llk(B, split, ys, Xs), ref, rtol=1e-8, atol=1e-8, msg="log-likelihood")
        g = num_grad(ll, b)
        ctx.close("mvn_gradient", np.asarray(fam.gradient(B, split, ys, Xs)).ravel(), g, rtol=1e-6, atol=1e-6, scale=1 + np.abs(g).max(), msg=f"gradient ({[type(a).__name__ for a in links]})")
        Hn = num_jac(lambda q: num_grad(ll, q, 1e-3), b, 1e-3)
        H = fam.jhessian(np.arange(p), B, split, ys, Xs).toarray()
        ctx.close("mvn_hessian", H, Hn, rtol=1e-5, atol=0, scale=1 + np.abs(Hn).max(), msg=f"Hessian ({[type(a).__name__ for a in links]})")
        j = int(rng.integers(p))
        ctx.close("mvn_hessian_column", np.asarray(fam.jcolhessian(j, B, split, ys, Xs)).ravel(), Hn[:, j], rtol=1e-5, atol=0, scale=1 + np.abs(Hn).max(), msg=f"column {j} of the Hessian")
        sub = np.sort(rng.choice(p, size=int(rng.integers(1, p)), replace=False))
        M = np.zeros((p, p), bool)
        M[sub, :] = True
        M[:, sub] = True
        ctx.close("mvn_hessian_part", fam.jhessian(sub, B, split, ys, Xs).toarray(), np.where(M, Hn, 0), rtol=1e-5, atol=0, scale=1 + np.abs(Hn).max(), msg=f"Hessian rows and columns {list(sub)}")
        mu1, th = fam.predict(B, split, Xs)
        ctx.close("mvn_predict", mu1, mu, rtol=1e-10, atol=1e-10, msg="means")
        ctx.close("mvn_theta", np.asarray(th).ravel(), b[split[-1]:], rtol=0, atol=0, msg="covariance coefficients")
        res = np.asarray(fam.get_resid(B, split, ys, Xs))
        ctx.close("mvn_resid", res, (y - mu) @ R.T, rtol=1e-9, atol=1e-9, msg="standardised residuals")
        k = int(rng.integers(m))
        ctx.close("mvn_resid_one", np.asarray(fam.get_resid(B, split, ys, Xs, mean=k)).ravel(), ((y - mu) @ R.T)[:, k], rtol=1e-9, atol=1e-9, msg="standardised residuals of one mean")
        R1, ld = fam.getR(b[split[-1]:])
        ctx.close("mvn_R", R1, R, rtol=1e-12, atol=0, msg="root of the precision matrix")
        ctx.close("mvn_logdet", ld, np.log(np.diag(R)).sum(), rtol=1e-12, atol=1e-12, msg="log determinant of the root")
    ctx.sample = {"kind": "mvn", "m": m, "llk": float(ref)}


def draws(c, ctx, rng):
    from mssm.src.python.exp_fam import Identity, MultiGauss

    m = c["m"]
    fam = MultiGauss(m, [Identity() for _ in range(m)])
    th = rng.normal(0, 0.4, m * (m + 1) // 2)
    R, _ = fam.getR(th)
    mu = rng.normal(0, 2, (5, m))
    N = 4000
    x = fam.rvs(mu, th, size=N, seed=int(rng.integers(1000)))
    ctx.ok("draws_shape", x.shape == (N, m, 5), f"shape {x.shape}")
    for i in range(5):
        e = (x[:, :, i] - mu[i]) @ R.T
        ctx.ok("draws", np.abs(e.mean(axis=0)).max() < 6 / np.sqrt(N), f"means of draws {e.mean(axis=0)} standard errors {1/np.sqrt(N):.3g}")
        C = np.cov(e.T) - np.eye(m)
        ctx.ok("draws_cov", np.abs(C).max() < 6 * np.sqrt(2 / N), f"covariance of standardised draws deviates by {np.abs(C).max():.3g}")
        for k in range(m):
            ctx.ok("draws_ks", st.kstest(e[:, k], "norm").pvalue > 1e-8, "standardised draws are standard normal")
    xx = np.corrcoef(x[:, 0, 0], x[:, 0, 1])[0, 1]
    ctx.ok("draws_indep", abs(xx) < 6 / np.sqrt(N), f"draws of different observations correlate ({xx:.3g})")


# ------------------------------------------------------------------ wrapped families
def dens(fam, y, mus, x):
    """log density per observation; x: extra coefficients (log scale, thetas)."""
    if fam.startswith("gauss"):
        return st.norm.logpdf(y, mus[0], np.exp(x[0] / 2))
    if fam == "gamma":
        phi = np.exp(x[0])
        return st.gamma.logpdf(y, 1 / phi, scale=mus[0] * phi)
    if fam == "invgauss":
        phi = np.exp(x[0])
        return -0.5 * np.log(2 * np.pi * phi * y**3) - (y - mus[0]) ** 2 / (2 * phi * mus[0] ** 2 * y)
    if fam == "poisson":
        return st.poisson.logpmf(y, mus[0])
    if fam == "binom":
        return st.binom.logpmf(y, 1, mus[0])
    if fam in ("t", "tlog"):
        return st.t.logpdf(y, np.exp(x[1]) + 3, loc=mus[0], scale=np.exp(x[0]))
    if fam.startswith("gaum"):
        return st.norm.logpdf(y, mus[0], mus[1])
    if fam == "gammals":
        return st.gamma.logpdf(y, 1 / mus[1], scale=mus[0] * mus[1])
    if fam == "mulnom":
        den = 1 + sum(mus)
        P = np.array([1 / den] + [m / den for m in mus])
        return np.log(P[y.astype(int), np.arange(len(y))])
    raise ValueError(fam)


def mk(fam):
    from mssm.src.python.exp_fam import GAMMALS, GAUMLSS, LOG, MULNOMLSS, Binomial, Gamma, Gaussian, Identity, InvGauss, Poisson, ScaledT

    return {"gauss": lambda: Gaussian(), "gausslog": lambda: Gaussian(link=LOG()), "gamma": lambda: Gamma(), "invgauss": lambda: InvGauss(link=LOG()), "poisson": lambda: Poisson(),
            "binom": lambda: Binomial(), "t": lambda: ScaledT(), "tlog": lambda: ScaledT(link=LOG()), "gaum": lambda: GAUMLSS(), "gaumlog": lambda: GAUMLSS([LOG(), LOG()]), "gammals": lambda: GAMMALS(), "mulnom": lambda: MULNOMLSS(2)}[fam]()


def wrap(c, ctx, rng):
    from mssm.src.python.custom_types import DerivOrder
    from mssm.src.python.exp_fam import Family
    from mssm.src.python.utils import GAMLSSGSMMFamily

    fam, n = c["fam"], c["n"]
    F = mk(fam)
    single = isinstance(F, Family)
    npar = 1 if single else F.n_par
    W = GAMLSSGSMMFamily(npar, F)
    nx = {"gauss": 1, "gausslog": 1, "gamma": 1, "invgauss": 1, "t": 2, "tlog": 2}.get(fam, 0)
    ctx.ok("wrap_extra", (W.extra_coef or 0) == nx, f"extra coefficients {W.extra_coef}, expected {nx}")
    Xd = [rand_X(rng, n, int(rng.integers(1, 4))) * 0.5 for _ in range(npar)]
    Xs = [sp.csc_array(x) for x in Xd]
    ks = [x.shape[1] for x in Xd] + ([nx] if nx else [])
    split = list(np.cumsum(ks))[:-1]
    p = sum(ks)
    if fam in ("poisson",):
        y = rng.poisson(2.0, n).astype(float)
    elif fam == "binom":
        y = (rng.random(n) < 0.5).astype(float)
    elif fam == "mulnom":
        y = rng.integers(0, 3, n).astype(float)
    elif fam in ("gamma", "invgauss", "gammals"):
        y = rng.gamma(3, 1, n) + 0.05
    else:
        y = rng.normal(1, 1, n)
    links = [F.link] if single else F.links
    Y = y.reshape(-1, 1)

    def mus_of(b):
        parts = np.split(b, split)
        return [np.asarray(links[j].fi(Xd[j] @ parts[j])).ravel() for j in range(npar)], (parts[-1] if nx else None)

    def ll(b):
        mu, x = mus_of(b)
        return dens(fam, y, mu, x).sum()

    for rep in range(2):
        b = rng.normal(0, 0.4, p)
        B = b.reshape(-1, 1)
        mu, x = mus_of(b)
        ctx.close("wrap_llk", W.llk(B, split, [Y], Xs), ll(b), rtol=1e-8, atol=1e-7, msg=f"log-likelihood ({fam})")
        g = num_grad(ll, b)
        ctx.close("wrap_gradient", np.asarray(W.gradient(B, split, [Y], Xs)).ravel(), g, rtol=3e-6 if nx else 1e-7, atol=0, scale=1 + np.abs(g).max() + n, msg=f"gradient ({fam})")
        H = W.hessian(B, split, [Y], Xs).toarray()
        if single or fam == "mulnom":
            Hn = num_jac(lambda q: num_grad(ll, q, 1e-3), b, 1e-3)
            tol = 1e-3 if nx else 1e-5
        else:
            # Hessian implied by the family's parameter derivatives
            M = [a.reshape(-1, 1) for a in mu]
            d1 = [np.asarray(F.dpars(Y, *M, index=j, order=DerivOrder.d1)).ravel() for j in range(npar)]
            d2 = [np.asarray(F.dpars(Y, *M, index=j, order=DerivOrder.d2)).ravel() for j in range(npar)]
            dm = np.asarray(F.dpars(Y, *M, index=0, order=DerivOrder.d2m)).ravel()
            a1 = [np.asarray(links[j].dy1(mu[j])).ravel() for j in range(npar)]
            a2 = [np.asarray(links[j].dy2(mu[j])).ravel() for j in range(npar)]
            e2 = [d2[j] / a1[j] ** 2 - d1[j] * a2[j] / a1[j] ** 3 for j in range(npar)]
            em = dm / (a1[0] * a1[1])
            Hn = np.block([[Xd[0].T @ (Xd[0] * e2[0][:, None]), Xd[0].T @ (Xd[1] * em[:, None])], [Xd[1].T @ (Xd[0] * em[:, None]), Xd[1].T @ (Xd[1] * e2[1][:, None])]])
            tol = 1e-8
        ctx.close("wrap_hessian", H, Hn, rtol=tol, atol=0, scale=1 + np.abs(Hn).max(), msg=f"Hessian ({fam})")
        res = np.asarray(W.get_resid(B, split, [Y], Xs)).ravel()
        if fam.startswith("gaum"):
            ref = (y - mu[0]) / mu[1]
        elif fam == "gammals":
            ref = np.sign(y - mu[0]) * np.sqrt(unit_dev("gamma", y, mu[0], x) / mu[1])
        elif fam == "mulnom":
            ref = None
        else:
            ref = np.sign(y - mu[0]) * np.sqrt(unit_dev(fam, y, mu[0], x))
        if ref is not None and res.shape == ref.shape:
            k = np.isfinite(ref) & (np.abs(ref) < 6)
            ctx.close("wrap_resid", res[k], ref[k], rtol=1e-6, atol=1e-6, msg=f"residuals ({fam})")
        elif ref is not None:
            ctx.fail("wrap_resid", f"residuals of shape {res.shape} ({fam})")
    ctx.sample = {"kind": "wrap", "fam": fam, "p": p}


def unit_dev(fam, y, mu, x):
    if fam.startswith("gauss"):
        return (y - mu) ** 2
    if fam == "gamma":
        return 2 * ((y - mu) / mu - np.log(y / mu))
    if fam == "invgauss":
        return (y - mu) ** 2 / (mu**2 * y)
    if fam == "poisson":
        return 2 * (ss.xlogy(y, y / mu) - (y - mu))
    if fam == "binom":
        return 2 * (ss.xlogy(y, y / mu) + ss.xlogy(1 - y, (1 - y) / (1 - mu)))
    nu = np.exp(x[1]) + 3
    return (nu + 1) * np.log1p(((y - mu) / np.exp(x[0])) ** 2 / nu)


# ------------------------------------------------------------------ a user's family that only states its log-likelihood
def user(c, ctx, rng):
    from mssm.src.python.exp_fam import GSMMFamily, Identity, LOG

    class Own(GSMMFamily):
        def __init__(self):
            super().__init__(2, [Identity(), LOG()])

        def llk(self, coef, coef_split_idx, ys, Xs):
            a, s = np.split(coef, coef_split_idx)
            mu, sd = Xs[0] @ a, np.exp(Xs[1] @ s)
            return float(st.logistic.logpdf(ys[0], mu, sd).sum())

        def get_resid(self, coef, coef_split_idx, ys, Xs):
            return None

    n = c["n"]
    Xd = [rand_X(rng, n, int(rng.integers(1, 4))) * 0.5 for _ in range(2)]
    Xs = [sp.csc_array(x) for x in Xd]
    split = [Xd[0].shape[1]]
    p = split[0] + Xd[1].shape[1]
    y = rng.logistic(0.5, 1, (n, 1))
    b = rng.normal(0, 0.3, p)

    def ll(b):
        a, s = np.split(b, split)
        return st.logistic.logpdf(y.ravel(), Xd[0] @ a, np.exp(Xd[1] @ s)).sum()

    F = Own()
    B = b.reshape(-1, 1)
    g = num_grad(ll, b)
    ctx.close("user_gradient", np.asarray(F.gradient(B, split, [y], Xs)).ravel(), g, rtol=1e-4, atol=0, scale=1 + np.abs(g).max(), msg="gradient by differencing")

    class Own2(Own):
        def gradient(self, coef, coef_split_idx, ys, Xs):
            return num_grad(ll, coef.ravel(), 1e-4).reshape(-1, 1)

    G = Own2()
    Hn = num_jac(lambda q: num_grad(ll, q, 1e-3), b, 1e-3)
    ctx.close("user_hessian", G.hessian(B, split, [y], Xs).toarray(), Hn, rtol=1e-4, atol=0, scale=1 + np.abs(Hn).max(), msg="Hessian by differencing of the gradient")
    sub = np.sort(rng.choice(p, size=int(rng.integers(1, p)), replace=False))
    M = np.zeros((p, p), bool)
    M[sub, :] = True
    M[:, sub] = True
    ctx.close("user_hessian_part", G.jhessian(sub, B, split, [y], Xs).toarray(), np.where(M, Hn, 0), rtol=1e-4, atol=0, scale=1 + np.abs(Hn).max(), msg=f"Hessian rows and columns {list(sub)}")
    ctx.ok("user_pure", np.array_equal(B.ravel(), b), "evaluating derivatives changed the coefficients")
