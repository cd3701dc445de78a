"""Random models of several parameters (GAMMLSS, GSMM) and what their fits have to report."""
import warnings

import numpy as np
import scipy.stats as st

from vlib import gam_ref as G
from vlib.fit_ref import rand_smooth_simple

GAMMLSS_KINDS = ["gaum", "gaumlog", "gammals", "mulnom"]
GSMM_KINDS = ["g_gaum", "g_gammals", "g_mulnom", "g_poisson", "g_binom", "g_gauss", "g_gamma", "g_t", "cox", "mvn"]


class Problem:
    pass


def rand_spec(rng, main=True, intercept=True, allow=("f", "te", "by", "fs", "binary")):
    spec = [{"k": "i"}] if intercept else []
    if rng.random() < 0.3:
        spec.append({"k": "l", "v": ["fac"]})
    if rng.random() < 0.3:
        spec.append({"k": "l", "v": ["z"]})
    seen = set()
    for _ in range(int(rng.integers(1, 3)) if main else int(rng.integers(0, 2))):
        t = rand_smooth_simple(rng, allow if main else ("f",))
        if t["k"] == "f" and not t.get("te") and not t.get("by") and not t.get("binary"):
            t["nk"] = int(rng.integers(5, 9))
        if any(a in seen for a in t["v"]) or (t.get("binary") and any(u.get("binary") for u in spec)):
            continue
        seen |= set(t["v"])
        spec.append(t)
    if main and rng.random() < 0.25:
        spec.append({"k": "ri", "v": ["grp"]})
    if not spec:
        spec = [{"k": "l", "v": ["z"]}]
    return spec


def n_par(fam):
    return {"gaum": 2, "gaumlog": 2, "gammals": 2, "mulnom": 2, "mvn": 2}.get(fam, 1)


def problem(c):
    P = Problem()
    P.c = c
    rng = P.rng = np.random.default_rng(c["seed"])
    P.kind = c["kind"]
    P.fam = P.kind[2:] if P.kind.startswith("g_") else P.kind
    P.gsmm = P.kind not in GAMMLSS_KINDS
    n = c.get("n") or int(rng.choice([300, 500, 800]))
    df = P.df = G.make_data(c["seed"] % 100003, n, nlev=2, ngrp=5)
    if c.get("dup"):
        df["x9"] = df["z"] * 2 - 1
    e = df["eta"].to_numpy()
    e = (e - e.mean()) / (e.std() + 1e-9)
    if c.get("weak") is not None:  # most of the signal is not in the covariates
        e = 0.3 * (c["weak"] * e + np.random.default_rng(c["seed"] + 1).normal(size=n))
    s = 0.5 * np.sin(3 * df["x0"].to_numpy()) + 0.2 * df["z"].to_numpy()
    f = P.fam
    if f in ("gaum", "gaumlog"):
        y = 1 + e + np.exp(-0.5 + s) * rng.normal(0, 1, n)
    elif f == "gammals":
        phi = np.exp(-1 + 0.7 * s)
        y = np.maximum(rng.gamma(1 / phi, np.exp(0.5 + 0.5 * e) * phi), 1e-4)
    elif f == "mulnom":
        a = np.array([np.zeros(n), 0.8 * e, 0.8 * s - 0.3]) + rng.gumbel(0, 1, (3, n))
        y = a.argmax(axis=0).astype(float)
    elif f == "poisson":
        y = rng.poisson(np.exp(0.8 + 0.5 * e)).astype(float)
    elif f == "binom":
        y = (rng.random(n) < 1 / (1 + np.exp(-e))).astype(float)
    elif f == "gauss":
        y = 2 + e + rng.normal(0, 0.7, n)
    elif f == "gamma":
        y = np.maximum(rng.gamma(3.0, np.exp(0.5 + 0.6 * e) / 3.0), 1e-4)
    elif f == "t":
        y = 2 + 0.4 * e + rng.standard_t(4.5, n)
    elif f == "cox":
        t = np.ceil(rng.exponential(1, n) * np.exp(-0.7 * e) * (20 if c.get("ties") else 2000)).astype(int) + 1
        cens = np.ceil(rng.exponential(3, n) * (20 if c.get("ties") else 2000)).astype(int) + 1
        df["time"] = np.minimum(t, cens)
        y = (t <= cens).astype(int)
        df["y"] = y
        df = P.df = df.sort_values("time", ascending=False, kind="stable").reset_index(drop=True)
        y = df["y"].to_numpy()
        u, inv = np.unique(df["time"].to_numpy(), return_inverse=True)
        P.ut, P.r = np.flip(u), np.abs(inv - inv.max())
    elif f == "mvn":
        C = np.array([[1.0, 0.5], [0.5, 0.8]])
        E = rng.multivariate_normal([0, 0], C, n)
        y = e + E[:, 0]
        df["y2"] = 0.5 + 2 * s + E[:, 1]
    df["y"] = y
    P.used = np.ones(n, bool)
    if c.get("na") and f not in ("cox", "mvn"):
        k = rng.random(n) < 0.05
        k[:8] = False
        df.loc[k, "y"] = np.nan
        P.used = ~k
    if c.get("empty"):
        # a level of a random factor that no row with a response has
        k = (df["grp"] == sorted(df["grp"].unique())[-1]).to_numpy()
        df.loc[k, "y"] = np.nan
        P.used = P.used & ~k
    P.y = df["y"].to_numpy()[P.used].astype(float)
    P.npar = n_par(f)
    P.specs = [rand_spec(rng, main=(j == 0), intercept=f != "cox") for j in range(P.npar)]
    if c.get("nopen"):
        P.specs = [[t for t in s_ if t["k"] in ("i", "l")] or [{"k": "l", "v": ["z"]}] for s_ in P.specs]
    if c.get("dup"):
        j = int(rng.integers(P.npar))
        P.specs[j] = [t for t in P.specs[j] if not (t["k"] == "l" and t["v"] == ["z"])] + [{"k": "l", "v": ["z"]}, {"k": "l", "v": ["x9"]}]
    if c.get("empty"):
        P.specs[-1] = [t for t in P.specs[-1] if t["k"] != "fs"][:3] + [{"k": "ri", "v": ["grp"]}]
    if c.get("specs"):
        P.specs = c["specs"]
    P.lhs = ["y", "y2"] if f == "mvn" else ["y"] * P.npar
    P.kw = {}
    if c.get("method"):
        P.kw["method"] = c["method"]
    for k in ("repara", "prefit_grad", "extend_lambda", "control_lambda", "optimizer", "check_cond", "sample_hessian", "sample_hessian_method", "structured_qefs", "structured_qefs_budget", "qEFS_memory_usage", "qEFS_final_memory_usage"):
        if c.get(k) is not None:
            P.kw[k] = c[k]
    if f == "mvn":
        P.kw["method"] = c.get("method") or "qEFS"
    return P


def family(P, gsmm=None):
    from mssm.src.python.exp_fam import GAMMALS, GAUMLSS, LOG, MULNOMLSS, Binomial, Gamma, Gaussian, Identity, MultiGauss, Poisson, PropHaz, ScaledT
    from mssm.src.python.utils import GAMLSSGSMMFamily

    f = P.fam
    if f == "cox":
        return PropHaz(P.ut, P.r)
    if f == "mvn":
        return MultiGauss(2, [Identity(), Identity()])
    base = {"gaum": lambda: GAUMLSS(), "gaumlog": lambda: GAUMLSS([Identity(), LOG()]), "gammals": lambda: GAMMALS([LOG(), LOG()]), "mulnom": lambda: MULNOMLSS(2),
            "poisson": Poisson, "binom": Binomial, "gauss": Gaussian, "gamma": Gamma, "t": ScaledT}[f]()
    if P.gsmm if gsmm is None else gsmm:
        return GAMLSSGSMMFamily(P.npar, base)
    return base


def formulas(P, df=None):
    df = P.df if df is None else df
    fs = getattr(P, "lhsf", None)
    if fs is None or df is not P.df:
        return [G.mk_formula(s, df, lhs_var=l, find_nested=False) for s, l in zip(P.specs, P.lhs)]
    df = df.copy()  # the data hold other values, from which a function given with the response recovers it
    df["y"] = 2 * df["y"] + 1
    if "y2" in df:
        df["y2"] = df["y2"] ** 3
    return [G.mk_formula(s, df, lhs_var=l, lhs_f=g, find_nested=False) for s, l, g in zip(P.specs, P.lhs, fs)]


def fit(P, gsmm=None, df=None, fam=None, model=None, **kw):
    from mssm.models import GAMMLSS, GSMM

    kw = {"n_cores": 1, "progress_bar": False, **P.kw, **kw}
    g = P.gsmm if gsmm is None else gsmm
    m = (GSMM if g else GAMMLSS)(formulas(P, df), fam or family(P, g))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            m.fit(**kw)
    return m


def mats(P, m):
    """Model matrices (dense), per-parameter coefficients, extra coefficients."""
    X = m.get_mmat()
    X = [X] if not isinstance(X, list) else X
    X = [x.toarray() for x in X]
    b = np.asarray(m.coef).ravel()
    cut = np.cumsum([x.shape[1] for x in X])
    bs = np.split(b, cut)
    return X, bs[:-1], bs[-1]


def dens(P, etas, x, links):
    """log density of every observation as function of the linear predictors and extra coefficients."""
    f, y = P.fam, P.y
    mu = [np.asarray(l.fi(e)).ravel() for l, e in zip(links, etas)]
    if f in ("gaum", "gaumlog"):
        return st.norm.logpdf(y, mu[0], mu[1])
    if f == "gammals":
        return st.gamma.logpdf(y, 1 / mu[1], scale=mu[0] * mu[1])
    if f == "mulnom":
        L = np.array([np.zeros(len(y)), etas[0], etas[1]])
        L = L - np.logaddexp.reduce(L, axis=0)
        return L[y.astype(int), np.arange(len(y))]
    if f == "poisson":
        return st.poisson.logpmf(y, mu[0])
    if f == "binom":
        return np.where(y == 1, -np.logaddexp(0, -etas[0]), -np.logaddexp(0, etas[0]))
    if f == "gauss":
        return st.norm.logpdf(y, mu[0], np.exp(x[0] / 2))
    if f == "gamma":
        return st.gamma.logpdf(y, np.exp(-x[0]), scale=mu[0] * np.exp(x[0]))
    if f == "t":
        return st.t.logpdf(y, np.exp(x[1]) + 3, loc=mu[0], scale=np.exp(x[0]))
    if f == "mvn":
        Y = np.array([P.df["y"].to_numpy(), P.df["y2"].to_numpy()]).T
        R = np.array([[np.exp(x[0]), x[1]], [0, np.exp(x[2])]])
        E = (Y - np.array(mu).T) @ R.T
        return -0.5 * (E**2).sum(axis=1) + x[0] + x[2]
    raise ValueError(f)


def d5(f, h):
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


def cox_parts(P, X, b):
    d = P.y
    t = P.ut[P.r]
    eta = X @ b
    g = np.exp(eta)
    p = X.shape[1]
    llk, gr, H = 0.0, np.zeros(p), np.zeros((p, p))
    s0, s1, s2 = 0.0, np.zeros(p), np.zeros((p, p))
    for j in range(len(P.ut)):
        k = P.r == j
        s0 += g[k].sum()
        s1 = s1 + X[k].T @ g[k]
        s2 = s2 + (X[k] * g[k][:, None]).T @ X[k]
        nd = d[k].sum()
        if nd:
            llk += (d[k] * eta[k]).sum() - nd * np.log(s0)
            gr += X[k].T @ d[k] - nd * s1 / s0
            H -= nd * (s2 / s0 - np.outer(s1, s1) / s0**2)
    return llk, gr, H


def score(P, m):
    """log-likelihood, its gradient and observed Hessian in all coefficients, from the densities alone."""
    X, bs, x = mats(P, m)
    if P.fam == "cox":
        return cox_parts(P, X[0], bs[0])
    links = [m.family.link] if not hasattr(m.family, "links") else m.family.links
    etas = [a @ b for a, b in zip(X, bs)]
    K = len(etas)
    nx = len(x)
    with np.errstate(all="ignore"):
        llk = dens(P, etas, x, links).sum()

        def F(k, h, et=None, ex=None):
            et = list(etas if et is None else et)
            ex = np.array(x if ex is None else ex, float)
            if k < K:
                et[k] = et[k] + h
            else:
                ex[k - K] += h
            return et, ex

        h1, h2 = 1e-4, 1e-3
        D1 = [d5(lambda h: dens(P, *F(k, h), links), h1) for k in range(K + nx)]
        D2 = [[None] * (K + nx) for _ in range(K + nx)]
        for a in range(K + nx):
            for b_ in range(a, K + nx):
                def inner(h):
                    et, ex = F(a, h)
                    return d5(lambda q: dens(P, *F(b_, q, et, ex), links), h2)
                D2[a][b_] = D2[b_][a] = d5(inner, h2)
    Z = X + [np.ones((len(P.y), 1)) for _ in range(nx)]
    g = np.concatenate([z.T @ d for z, d in zip(Z, D1)])
    H = np.block([[Z[a].T @ (Z[b_] * D2[a][b_][:, None]) for b_ in range(K + nx)] for a in range(K + nx)])
    return llk, g, H


def total_S(m):
    p = len(m.coef)
    S = np.zeros((p, p))
    for t in m.overall_penalties:
        S = S + t.lam * t.S_J_emb.toarray()
    return S


def dropped(m):
    return [] if m.info.dropped is None else [int(a) for a in np.asarray(m.info.dropped).ravel()]
