"""C08: response distributions: log-density, deviance, variance, derivatives, distribution function, draws."""

import numpy as np
import scipy as scp
import scipy.stats as st
from scipy.special import digamma, gammaln, polygamma

RULE = ("random parameter and response vectors (mild, extreme and boundary values; 1..60 observations) per family; "
        "non-trivial = library value compared with an independent formula")
ASSUMPTIONS = ["second derivatives of the normal and Gamma location-scale families are the expected ones",
               "random draws: goodness of fit at p<1e-8"]
REQUIRED = ["lp", "llk", "deviance", "deviance_def", "variance", "dvariance", "d1", "d2", "d2m", "lcp", "resid", "rvs",
            "t_derivs", "theta_grad", "theta_hess", "probs", "quantile_resid"]

GF = ["gaussian", "gamma", "invgauss", "binomial", "poisson", "scaledt"]
LF = ["gaumlss", "gammals", "mulnom"]


def cases(tier, seed):
    n = 60 if tier == "quick" else 1500
    rng = np.random.default_rng([8, seed])
    out = []
    for f in GF + LF:
        for k in range(n):
            out.append(dict(kind=f, seed=int(rng.integers(1 << 30)), extreme=bool(k % 3 == 2), n=int(rng.integers(1, 60)), boundary=bool(k % 4 == 1),
                            draws=bool(f in LF and k % 10 == 0), K=int(rng.integers(2, 7))))
    return out


def col(x):
    return np.asarray(x, dtype=float).reshape(-1, 1)


def run_case(c, ctx):
    from mssm.src.python import exp_fam as E

    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    w = 3.0 if c["extreme"] else 0.7
    f = c["kind"]
    if f in LF:
        return ls_family(c, ctx, E, rng, n, w)
    phi = float(np.exp(rng.normal() * w / 2))
    if f == "gaussian":
        fam = E.Gaussian()
        mu, y = rng.normal(size=n) * np.exp(w), rng.normal(size=n) * np.exp(w)
        lp = -0.5 * np.log(2 * np.pi * phi) - (y - mu) ** 2 / (2 * phi)
        D, V, dV = (y - mu) ** 2, np.ones(n), np.zeros(n)
        sat = -0.5 * np.log(2 * np.pi * phi) * np.ones(n)
    elif f == "gamma":
        fam = E.Gamma()
        mu = np.exp(rng.normal(size=n) * w)
        y = mu * rng.gamma(1 / phi, phi, size=n) + 1e-8
        a = 1 / phi
        lg = lambda m: a * np.log(a / m) + (a - 1) * np.log(y) - a * y / m - gammaln(a)
        lp, sat = lg(mu), lg(y)
        D, V, dV = 2 * ((y - mu) / mu - np.log(y / mu)), mu ** 2, 2 * mu
    elif f == "invgauss":
        fam = E.InvGauss()
        mu = np.exp(rng.normal(size=n) * w / 2)
        y = np.exp(rng.normal(size=n) * w / 2) * mu
        lg = lambda m: -0.5 * np.log(2 * np.pi * phi * y ** 3) - (y - m) ** 2 / (2 * phi * m ** 2 * y)
        lp, sat = lg(mu), lg(y)
        D, V, dV = (y - mu) ** 2 / (mu ** 2 * y), mu ** 3, 3 * mu ** 2
    elif f == "poisson":
        fam = E.Poisson()
        phi = 1.0
        mu = np.exp(rng.normal(size=n) * w)
        y = rng.poisson(mu).astype(float)
        if c["boundary"]:
            y[0] = 0
        lp = y * np.log(mu) - mu - gammaln(y + 1)
        sat = scp.special.xlogy(y, y) - y - gammaln(y + 1)
        D, V, dV = 2 * (scp.special.xlogy(y, y / mu) - (y - mu)), mu, np.ones(n)
    elif f == "binomial":
        phi = 1.0
        size = col(rng.integers(1, 60, size=n)) if rng.random() < 0.5 else int(rng.integers(1, 60))
        fam = E.Binomial(n=size)
        N = np.broadcast_to(np.asarray(size, dtype=float).ravel(), (n,))
        mu = scp.special.expit(rng.normal(size=n) * w)
        k = rng.binomial(N.astype(int), mu).astype(float)
        if c["boundary"]:
            k[0] = 0
            k[-1] = N[-1]
        y = k / N
        comb = gammaln(N + 1) - gammaln(k + 1) - gammaln(N - k + 1)
        lp = comb + scp.special.xlogy(k, mu) + scp.special.xlog1py(N - k, -mu)
        sat = comb + scp.special.xlogy(k, y) + scp.special.xlog1py(N - k, -y)
        D = 2 * (scp.special.xlogy(k, y / mu) + scp.special.xlogy(N - k, (1 - y) / (1 - mu)))
        V, dV = mu * (1 - mu) / N, (1 - 2 * mu) / N
    elif f == "scaledt":
        return scaled_t(c, ctx, E, rng, n, w)
    args = () if f in ("poisson", "binomial") else (phi,)
    lpl = fam.lp(col(y), col(mu), *args)
    ctx.close("lp", np.ravel(lpl), lp, rtol=1e-9, atol=1e-9, msg=f"{f} log-density", scale=np.max(np.abs(lp)) + 1)
    ctx.close("llk", fam.llk(col(y), col(mu), *args), lp.sum(), rtol=1e-9, atol=1e-8, msg=f"{f} log-likelihood", scale=np.sum(np.abs(lp)) + 1)
    sc = np.abs(D).max() + 1
    ctx.close("deviance", np.ravel(fam.D(col(y), col(mu))), D, rtol=1e-9, atol=1e-9, msg=f"{f} deviance contributions", scale=sc)
    ctx.close("deviance", fam.deviance(col(y), col(mu)), D.sum(), rtol=1e-9, atol=1e-9, msg=f"{f} deviance", scale=sc * n)
    ctx.close("deviance_def", np.ravel(fam.D(col(y), col(mu))), 2 * phi * (sat - lp), rtol=1e-7, atol=1e-7,
              msg=f"{f} deviance vs twice the scaled log-likelihood gap", scale=phi * (np.abs(sat).max() + np.abs(lp).max()) + 1)
    ctx.close("variance", np.ravel(fam.V(col(mu))), V, rtol=1e-12, atol=1e-14, msg=f"{f} variance function")
    ctx.close("dvariance", np.ravel(fam.dVy1(col(mu))), dV, rtol=1e-12, atol=1e-14, msg=f"{f} derivative of the variance function", scale=np.abs(dV).max() + 1e-10)
    ini = np.ravel(fam.init_mu(col(y)))
    if f in ("poisson", "binomial"):
        lk = fam.link.f(ini)
        ctx.ok("init_mu", np.all(np.isfinite(lk)), f"{f}: starting means not in the domain of the link: {ini[:5]}")
    ctx.sample = {"lp0": float(lp[0]), "D0": float(D[0])}


def scaled_t(c, ctx, E, rng, n, w):
    fam = E.ScaledT(min_df=int(rng.integers(2, 5)) + 0.0)
    mu, y = rng.normal(size=n), rng.normal(size=n) * 3
    th = np.array([[rng.normal() * w / 2], [rng.normal() * w / 2 + 1.0]])
    md = fam.min_df

    def lpf(mu, th):
        phi, nu = np.exp(th[0, 0]), np.exp(th[1, 0]) + md
        return st.t.logpdf((y - mu) / phi, nu) - np.log(phi)

    lp = lpf(mu, th)
    for mode in (0, 1):
        if mode == 0:
            kw = {"theta": th}
        else:
            fam = E.ScaledT(theta=th, min_df=md)
            kw = {}
        ctx.close("lp", np.ravel(fam.lp(col(y), col(mu), **kw)), lp, rtol=1e-9, atol=1e-10, msg="scaled t log-density")
        ctx.close("llk", fam.llk(col(y), col(mu), **kw), lp.sum(), rtol=1e-9, atol=1e-10, msg="scaled t log-likelihood", scale=np.abs(lp).sum())
        sat = lpf(y, th)
        ctx.close("deviance_def", np.ravel(fam.D(col(y), col(mu), **kw)), 2 * (sat - lp), rtol=1e-8, atol=1e-9, msg="scaled t deviance")
        ctx.close("deviance", fam.deviance(col(y), col(mu), **kw), 2 * np.sum(sat - lp), rtol=1e-8, atol=1e-8, msg="scaled t deviance sum")
        phi, nu = np.exp(th[0, 0]), np.exp(th[1, 0]) + md
        ctx.close("variance", np.ravel(fam.V(col(mu), **kw)), np.full(n, phi ** 2 * nu / (nu - 2)), rtol=1e-10, atol=0, msg="scaled t variance")
        z = y - mu
        s = nu * phi ** 2 + z ** 2
        d1 = -2 * (nu + 1) * z / s
        d2 = 2 * (nu + 1) * (nu * phi ** 2 - z ** 2) / s ** 2
        ctx.close("t_derivs", np.ravel(fam.dDdmu(col(y), col(mu), **kw)), d1, rtol=1e-9, atol=1e-12, msg="d deviance / d mean")
        ctx.close("t_derivs", np.ravel(fam.d2Ddmu(col(y), col(mu), **kw)), d2, rtol=1e-9, atol=1e-12, msg="d2 deviance / d mean^2")
        ctx.close("t_derivs", np.ravel(fam.Ed2Ddmu(col(y), col(mu), **kw)), np.full(n, 2 * (nu + 1) / (nu + 3) / phi ** 2), rtol=1e-9, atol=1e-12,
                  msg="expected d2 deviance / d mean^2")
    L = lambda a, b: lpf(mu, np.array([[a], [b]])).sum()
    a, b = th.ravel()
    h = 1e-4
    d = lambda g, h: (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)
    g = np.array([d(lambda e: L(a + e, b), h), d(lambda e: L(a, b + e), h)])
    G = np.ravel(fam.gradientLTheta(col(y), col(mu), th))
    ctx.close("theta_grad", G, g, rtol=1e-6, atol=1e-6, msg="gradient of the log-likelihood in the distribution parameters", scale=n + np.abs(g).max())
    gr = lambda x: np.ravel(fam.gradientLTheta(col(y), col(mu), np.array(x).reshape(-1, 1)))
    h = 1e-3
    Hn = np.stack([d(lambda e: gr([a + e, b]), h), d(lambda e: gr([a, b + e]), h)])
    ctx.close("theta_hess", fam.hessianLTheta(col(y), col(mu), th), Hn, rtol=1e-6, atol=1e-6,
              msg="Hessian of the log-likelihood in the distribution parameters", scale=n + np.abs(Hn).max())


def ls_family(c, ctx, E, rng, n, w):
    from mssm.src.python.custom_types import DerivOrder as O

    f = c["kind"]
    if f == "gaumlss":
        fam = E.GAUMLSS()
        ps = [rng.normal(size=n) * np.exp(w), np.exp(rng.normal(size=n) * w)]
        y = ps[0] + ps[1] * rng.normal(size=n)
        mu, s = ps
        lp = -0.5 * np.log(2 * np.pi) - np.log(s) - 0.5 * ((y - mu) / s) ** 2
        cdf = st.norm.cdf((y - mu) / s)
        d1 = [(y - mu) / s ** 2, ((y - mu) ** 2 / s ** 2 - 1) / s]
        d2 = [-1 / s ** 2, -2 / s ** 2]
        d2m = [np.zeros(n)]
        res = (y - mu) / s
    elif f == "gammals":
        fam = E.GAMMALS()
        ps = [np.exp(rng.normal(size=n) * w), np.exp(rng.normal(size=n) * w / 2)]
        mu, p = ps
        y = np.maximum(mu * p * rng.gamma(1 / p), mu * 1e-6)
        a = 1 / p
        lp = a * np.log(a / mu) + (a - 1) * np.log(y) - a * y / mu - gammaln(a)
        cdf = scp.special.gammainc(a, a * y / mu)
        d1 = [a * (y - mu) / mu ** 2, (digamma(a) - 1 + np.log(p * mu / y) + y / mu) / p ** 2]
        d2 = [-a / mu ** 2, a ** 3 - a ** 4 * polygamma(1, a)]
        d2m = [np.zeros(n)]
        res = np.sign(y - mu) * np.sqrt(2 * ((y - mu) / mu - np.log(y / mu)) / p)
    else:
        K = c["K"]
        fam = E.MULNOMLSS(K - 1)
        ps = [np.exp(rng.normal(size=n) * w) for _ in range(K - 1)]
        y = rng.integers(0, K, size=n).astype(float)
        W = np.stack([np.ones(n)] + ps, axis=1)
        pr = W / W.sum(axis=1, keepdims=True)
        lp = np.log(pr[np.arange(n), y.astype(int)])
        # classes are cumulated in the order 1, ..., K-1, 0
        cum = np.cumsum(np.concatenate([pr[:, 1:], pr[:, :1]], axis=1), axis=1)
        order = np.where(y == 0, K - 1, y - 1).astype(int)
        cdf = cum[np.arange(n), order]
        d1 = [(y == k + 1) - pr[:, k + 1] for k in range(K - 1)]
        d2 = [-pr[:, k + 1] * (1 - pr[:, k + 1]) for k in range(K - 1)]
        d2m = [pr[:, i + 1] * pr[:, j + 1] for i in range(K - 1) for j in range(i + 1, K - 1)]
        ctx.close("probs", fam.get_probs(*[col(p) for p in ps]), pr, rtol=1e-10, atol=1e-12, msg="class probabilities")
        r = np.ravel(fam.get_resid(col(y), *[col(p) for p in ps]))
        lo = cdf - pr[np.arange(n), y.astype(int)]
        u = st.norm.cdf(r)
        ctx.ok("quantile_resid", np.all((u >= lo - 1e-9) & (u <= cdf + 1e-9)), "randomised quantile residual outside its interval")
        res = None
    P = [col(p) for p in ps]
    Y = col(y)
    ctx.close("lp", np.ravel(fam.lp(Y, *P)), lp, rtol=1e-9, atol=1e-9, msg=f"{f} log-density", scale=np.abs(lp).max() + 1)
    ctx.close("llk", fam.llk(Y, *P), lp.sum(), rtol=1e-9, atol=1e-9, msg=f"{f} log-likelihood", scale=np.abs(lp).sum() + 1)
    ctx.close("lcp", np.exp(np.ravel(fam.lcp(Y, *P))), cdf, rtol=1e-9, atol=1e-10, msg=f"{f} distribution function")
    for i, want in enumerate(d1):
        ctx.close("d1", np.ravel(fam.dpars(Y, *P, index=i, order=O.d1)), want, rtol=1e-8, atol=1e-10, msg=f"{f} first derivative {i}")
    for i, want in enumerate(d2):
        ctx.close("d2", np.ravel(fam.dpars(Y, *P, index=i, order=O.d2)), want, rtol=1e-8, atol=1e-10, msg=f"{f} second derivative {i}")
    for i, want in enumerate(d2m):
        ctx.close("d2m", np.ravel(fam.dpars(Y, *P, index=i, order=O.d2m)), want, rtol=1e-8, atol=1e-12, msg=f"{f} mixed derivative {i}")
    ctx.ok("flags", fam.d_eta == (f == "mulnom"), "derivative scale flag")
    if res is not None:
        ctx.close("resid", np.ravel(fam.get_resid(Y, *P)), res, rtol=1e-7, atol=1e-7, msg=f"{f} standardised residual")
    if c["draws"]:
        m = 4000
        S = np.asarray(fam.rvs(*P, size=m, seed=int(rng.integers(1000))))
        if ctx.ok("rvs", S.shape == (m, n), f"draws have shape {S.shape}"):
            pv = 1.0
            for i in range(n):
                if f == "mulnom":
                    cnt = np.bincount(S[:, i].astype(int), minlength=c["K"]).astype(float)
                    e = pr[i] * m
                    keep = e >= 1
                    pv = min(pv, st.chi2.sf(np.sum((cnt - e)[keep] ** 2 / e[keep]), max(1, c["K"] - 1)) if c["K"] > 1 else 1)
                    ctx.ok("rvs", abs(cnt.sum() - m) < 0.5, "draw outside the classes")
                elif f == "gaumlss":
                    pv = min(pv, st.kstest((S[:, i] - ps[0][i]) / ps[1][i], "norm").pvalue)
                else:
                    pv = min(pv, st.kstest(scp.special.gammainc(1 / ps[1][i], S[:, i] / (ps[0][i] * ps[1][i])), "uniform").pvalue)
            ctx.ok("rvs", pv > 1e-9, f"{f}: draws do not follow the distribution, p={pv:.3g}")
            g = S - S.mean(axis=0)
            if n > 1 and f != "mulnom":
                sd = g.std(axis=0)
                cor = np.max(np.abs((g[:, :-1] * g[:, 1:]).mean(axis=0) / (sd[:-1] * sd[1:]))) * np.sqrt(m)
                ctx.ok("rvs", cor < 12, f"{f}: draws of neighbouring observations are correlated ({cor:.3g} s.e.)")
    ctx.sample = {"lp0": float(lp[0])}
