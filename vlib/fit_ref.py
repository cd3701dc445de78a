"""Random GAMM fits and a dense account of what a fitted model has to report."""

import warnings

import numpy as np

from vlib import gam_ref as G


def rand_smooth_simple(rng, allow=("f", "te", "by", "fs", "binary")):
    v = ["x0", "x1", "x2", "x3"]
    k = str(rng.choice(["f", "f", "f", "te", "by", "fs", "binary"]))
    if k not in allow:
        k = "f"
    if k == "f":
        t = {"k": "f", "v": [str(rng.choice(v))], "nk": int(rng.integers(5, 12))}
        if rng.random() < 0.2:
            t["penalize_null"] = True
        if rng.random() < 0.15:
            t["by_cont"] = "z"
        if rng.random() < 0.2:
            t["rp"] = 1
        if rng.random() < 0.2:
            t["const"] = str(rng.choice(["DROP", "DIFF"]))
        return t
    if k == "te":
        a = [str(x) for x in rng.permutation(v)[:2]]
        return {"k": "f", "v": a, "te": True, "nk": [int(q) for q in rng.integers(4, 6, 2)], "rp": int(rng.choice([0, 2]))}
    if k == "by":
        t = {"k": "f", "v": [str(rng.choice(v))], "by": "fac", "nk": int(rng.integers(5, 8))}
        if rng.random() < 0.5:
            t["id"] = int(rng.integers(20, 50))
        return t
    if k == "binary":
        return {"k": "f", "v": [str(rng.choice(v))], "binary": ["bin", "yes"], "nk": 6}
    return {"k": "fs", "v": [str(rng.choice(v))], "by": "grp", "nk": 5}


def rand_fit_spec(rng, smooth=True, allow=("f", "te", "by", "fs", "binary")):
    spec = [{"k": "i"}]
    if rng.random() < 0.4:
        spec.append({"k": "l", "v": ["fac"]})
    if rng.random() < 0.3:
        spec.append({"k": "l", "v": ["z"]})
    if smooth:
        seen = set()
        for _ in range(int(rng.integers(1, 4))):
            t = rand_smooth_simple(rng, allow)
            if any(a in seen for a in t["v"]) or (t.get("binary") and any(u.get("binary") for u in spec)):
                continue
            seen |= set(t["v"])
            spec.append(t)
    if rng.random() < 0.3:
        spec.append({"k": "ri", "v": ["grp"]})
    elif rng.random() < 0.2:
        spec.append({"k": "rs", "v": ["z"], "by": "grp" if rng.random() < 0.5 else None})
    return spec


FAMS = ["gauss", "gauss", "gamma", "poisson", "binom1", "binomn", "invgauss", "gausslog"]


def respond(df, fam, rng):
    """Adds a response of the family to df; returns family factory and a dict describing it."""
    e = df["eta"].to_numpy()
    e = (e - e.mean()) / (e.std() + 1e-9)
    n = len(df)
    nb = None
    if fam == "gauss":
        y = 2 + e + rng.normal(0, float(rng.choice([0.3, 1.0])), n)
    elif fam == "gausslog":
        y = np.exp(1.5 + 0.4 * e) + rng.normal(0, 0.3, n)
        y = np.maximum(y, 0.05)
    elif fam == "gamma":
        m = np.exp(0.5 + 0.6 * e)
        y = rng.gamma(3.0, m / 3.0)
        y = np.maximum(y, 1e-4)
    elif fam == "invgauss":
        y = rng.wald(np.exp(0.5 + 0.3 * e), 4.0)
        y = np.maximum(y, 1e-3)
    elif fam == "poisson":
        y = rng.poisson(np.exp(0.8 + 0.5 * e)).astype(float)
    elif fam == "binom1":
        y = (rng.random(n) < 1 / (1 + np.exp(-e))).astype(float)
    elif fam == "binomn":
        nb = rng.integers(1, 8, n)
        y = rng.binomial(nb, 1 / (1 + np.exp(-e))) / nb
    elif fam == "t":
        y = 2 + e + 0.5 * rng.standard_t(4, n)
    df["y"] = y
    return nb


def mk_family(fam, nb=None, used=None, scale=None):
    from mssm.src.python.exp_fam import LOG, Binomial, Gamma, Gaussian, InvGauss, Poisson, ScaledT

    kw = {} if scale is None else {"scale": scale}
    if fam == "gauss":
        return Gaussian(**kw)
    if fam == "gausslog":
        return Gaussian(link=LOG(), **kw)
    if fam == "gamma":
        return Gamma(**kw)
    if fam == "invgauss":
        return InvGauss(**kw)
    if fam == "poisson":
        return Poisson()
    if fam == "binom1":
        return Binomial()
    if fam == "binomn":
        return Binomial(n=nb[used].reshape(-1, 1))
    if fam == "t":
        return ScaledT()
    raise ValueError(fam)


class Problem:
    pass


def problem(case):
    """A random model: data, spec, family, fitting options (nothing of the library is run yet)."""
    P = Problem()
    rng = np.random.default_rng(case["seed"])
    P.fam = case["fam"]
    n = case.get("n") or int(rng.choice([250, 400, 600]))
    n = 8 * (n // 8)
    P.series = 8 if case.get("ar") == "series" else 0
    P.df = G.make_data(case["seed"] % 100003, n, nlev=int(rng.choice([2, 3])), ngrp=5, series=P.series)
    if case.get("dup"):
        P.df["x9"] = P.df["z"] * 2 - 1
    if case.get("weak") is not None:  # most of the signal is not in the covariates
        e = P.df["eta"].to_numpy()
        P.df["eta"] = case["weak"] * (e - e.mean()) / e.std() + np.random.default_rng(case["seed"] + 1).normal(size=n)
    P.nb = respond(P.df, P.fam, rng)
    if rng.random() < 0.25 and not case.get("nona"):
        k = rng.random(n) < 0.05
        k[:8] = False
        P.df.loc[k, "y"] = np.nan
    P.used = ~P.df["y"].isna().to_numpy()
    P.spec = case.get("spec") or rand_fit_spec(rng, smooth=case.get("smooth", True))
    P.y = P.df["y"].to_numpy()[P.used]
    if case.get("dup"):
        P.spec = P.spec + [{"k": "l", "v": ["z"]}, {"k": "l", "v": ["x9"]}] if not any(t["k"] == "l" and t["v"] == ["z"] for t in P.spec) else P.spec + [{"k": "l", "v": ["x9"]}]
    P.rng = rng
    P.kw, P.form_kw = {}, {}
    P.offset = None
    P.rho = None
    P.fixscale = case.get("fixscale")
    if case.get("method"):
        P.kw["method"] = case["method"]
    if case.get("pql"):
        P.kw["max_inner"] = 1
    if case.get("ext"):
        P.kw["extend_lambda"] = True
    if case.get("control") is not None:
        P.kw["control_lambda"] = case["control"]
    if case.get("offset") == "scalar":
        P.offset = float(rng.uniform(-0.5, 0.5))
        P.kw["offset"] = P.offset
    elif case.get("offset") == "array":
        P.offset = rng.uniform(-0.5, 0.5, (n, 1))
        P.kw["offset"] = P.offset.copy()
    if case.get("ar"):
        P.rho = float(rng.uniform(0.1, 0.8))
        P.kw["rho"] = P.rho
        if P.series:
            P.form_kw["series_id"] = "series"
    if case.get("tol"):
        P.kw["conv_tol"] = case["tol"]
    return P


def off(P):
    if P.offset is None:
        return 0.0
    if np.isscalar(P.offset):
        return P.offset
    return P.offset.ravel()[P.used]


def whiten(P):
    """Root of the inverse ar1 correlation of the used observations (rows: whitened)."""
    n = int(P.used.sum())
    W = np.eye(n)
    if P.rho is None:
        return W
    r = P.rho
    ser = P.df["series"].to_numpy()[P.used] if P.series else None
    for i in range(1, n):
        if ser is None or ser[i] == ser[i - 1]:
            W[i, i] = 1 / np.sqrt(1 - r * r)
            W[i, i - 1] = -r / np.sqrt(1 - r * r)
    return W


def fit(P, df=None, family=None, spec=None, form_kw=None, **kw):
    from mssm.models import GAMM

    kw = {**P.kw, **kw}
    form_kw = {**P.form_kw, **(form_kw or {})}
    kw.setdefault("n_cores", 1)
    df = P.df if df is None else df
    form = G.mk_formula(spec or P.spec, df, find_nested=False, **form_kw)
    fam = family or mk_family(P.fam, P.nb, P.used, P.fixscale)
    m = GAMM(form, fam)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(progress_bar=False, **kw)
    if P.fam == "t":
        P.theta = np.ravel(m.family.theta).astype(float)
    return m


def total_S(m, p=None):
    S = None
    for t in m.overall_penalties:
        a = t.lam * t.S_J_emb.toarray()
        S = a if S is None else S + a
    if S is None:
        p = p or len(m.coef)
        S = np.zeros((p, p))
    return S


def lfi(fam, eta):
    if fam in ("gauss", "t"):
        return eta
    if fam.startswith("binom"):
        return 1 / (1 + np.exp(-eta))
    return np.exp(eta)


def glm_parts(fam, y, eta, nb=None, th=None):
    """score wrt eta (times phi), Fisher weight, Newton weight (both times phi), mean."""
    mu = lfi(fam, eta)
    w = np.ones_like(mu) if nb is None else nb.astype(float)
    if fam == "gauss":
        return y - mu, w, w, mu
    if fam == "gausslog":
        return (y - mu) * mu, mu**2, mu**2 - (y - mu) * mu, mu
    if fam == "gamma":
        return (y - mu) / mu, w, y / mu, mu
    if fam == "invgauss":
        return (y - mu) / mu**2, 1 / mu, (2 * y - mu) / mu**2, mu
    if fam == "poisson":
        return y - mu, mu, mu, mu
    if fam.startswith("binom"):
        return w * (y - mu), w * mu * (1 - mu), w * mu * (1 - mu), mu
    if fam == "t":  # th: log sigma, log(nu - 3)
        sg, nu = np.exp(th[0]), 3 + np.exp(th[1])
        u = (y - mu) / sg
        return (nu + 1) * u / (nu + u * u) / sg, np.full(len(mu), (nu + 1) / (nu + 3) / sg**2), (nu + 1) * (nu - u * u) / (nu + u * u) ** 2 / sg**2, mu
    raise ValueError(fam)
