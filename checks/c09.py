"""C09: link functions invert and differentiate correctly; scores of the response families."""

import numpy as np
import scipy as scp

RULE = ("random and extreme arguments per link; random designs, coefficients, scales per family and link; non-trivial = "
        "library value compared with an independent formula or difference quotient")
ASSUMPTIONS = ["the numerical derivatives in the log scale are compared at 1e-3 relative"]
REQUIRED = ["inverse", "forward", "dlink", "d2link", "roundtrip", "score", "score_scale", "curv_scale"]


def cases(tier, seed):
    rng = np.random.default_rng([9, seed])
    n = 60 if tier == "quick" else 1500
    out = []
    for l in ["logit", "identity", "log", "logb"]:
        for k in range(n):
            out.append(dict(kind="link", link=l, seed=int(rng.integers(1 << 30)), big=bool(k % 3 == 0)))
    for fam, links in [("gaussian", ["identity", "log"]), ("gamma", ["log", "identity"]), ("invgauss", ["log", "identity"]),
                       ("poisson", ["log", "identity"]), ("binomial", ["logit"])]:
        for l in links:
            for k in range(max(6, n // 5)):
                out.append(dict(kind="score", fam=fam, link=l, seed=int(rng.integers(1 << 30)), n=int(rng.integers(2, 40))))
    return out


def mk(E, name, b=None):
    return {"logit": E.Logit, "identity": E.Identity, "log": E.LOG}[name]() if name != "logb" else E.LOGb(b)


def run_case(c, ctx):
    from mssm.src.python import exp_fam as E

    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "score":
        return score(c, ctx, E, rng)
    b = -float(rng.choice([1e-4, 0.01, 0.3]))
    lk = mk(E, c["link"], b)
    n = int(rng.integers(1, 30))
    sd = {"logit": 60 if c["big"] else 3, "identity": 100, "log": 100 if c["big"] else 3, "logb": 3}[c["link"]]
    eta = rng.normal(size=n) * sd
    if c["big"] and c["link"] == "logit":
        eta[0] = 800.0
        eta[-1] = -750.0
    shape = (-1, 1) if rng.random() < 0.7 else (-1,)
    eta = eta.reshape(shape)
    mu = {"logit": scp.special.expit, "identity": lambda x: x, "log": np.exp, "logb": lambda x: np.exp(x) - b}[c["link"]](eta)
    got = lk.fi(eta)
    ctx.close("inverse", got / np.where(mu == 0, 1, mu), np.where(mu == 0, 0, 1.0), rtol=1e-10, atol=1e-12, msg=f"{c['link']} inverse link")
    if c["link"] == "logit":
        mu = scp.special.expit(np.clip(eta, -8, 8))
    if c["link"] in ("log", "logb"):
        mu = np.exp(np.clip(eta, -8, 8)) - (b if c["link"] == "logb" else 0)
    f = {"logit": scp.special.logit, "identity": lambda m: m, "log": np.log, "logb": lambda m: np.log(m + b)}[c["link"]]
    d1 = {"logit": lambda m: 1 / m + 1 / (1 - m), "identity": lambda m: np.ones_like(m), "log": lambda m: 1 / m, "logb": lambda m: 1 / (m + b)}[c["link"]]
    d2 = {"logit": lambda m: 1 / (1 - m) ** 2 - 1 / m ** 2, "identity": lambda m: np.zeros_like(m), "log": lambda m: -1 / m ** 2, "logb": lambda m: -1 / (m + b) ** 2}[c["link"]]
    ctx.close("forward", lk.f(mu), f(mu), rtol=1e-9, atol=1e-10, msg=f"{c['link']} link")
    r1, r2 = d1(mu), d2(mu)
    ctx.close("dlink", lk.dy1(mu) / r1, np.ones_like(mu), rtol=1e-8, atol=0, msg=f"{c['link']} first derivative")
    if c["link"] == "identity":
        ctx.close("d2link", lk.dy2(mu), r2, rtol=0, atol=1e-12, msg="identity second derivative")
    else:
        ctx.close("d2link", lk.dy2(mu) / d1(mu) ** 2, r2 / d1(mu) ** 2, rtol=1e-8, atol=1e-9, msg=f"{c['link']} second derivative")
    ctx.close("roundtrip", lk.fi(lk.f(mu)) / mu, np.ones_like(mu), rtol=1e-8, atol=0, msg=f"{c['link']} round trip")


def score(c, ctx, E, rng):
    n, k = c["n"], int(rng.integers(1, 5))
    X = rng.normal(size=(n, k)) * 0.3
    X[:, 0] = 1
    beta = rng.normal(size=(k, 1)) * 0.3
    phi = float(np.exp(rng.normal() * 0.5))
    lk = mk(E, c["link"])
    if c["fam"] == "binomial":
        size = rng.integers(1, 12, size=(n, 1))
        fam = E.Binomial(lk, size)
    else:
        fam = {"gaussian": E.Gaussian, "gamma": E.Gamma, "invgauss": E.InvGauss, "poisson": E.Poisson}[c["fam"]](lk)
    if c["link"] == "identity" and c["fam"] != "gaussian":
        X = np.abs(X)
        beta = np.abs(beta) + 0.2
    eta = X @ beta
    mu = {"logit": scp.special.expit, "identity": lambda x: x, "log": np.exp}[c["link"]](eta)
    two = c["fam"] in ("gaussian", "gamma", "invgauss")
    y = {"gaussian": lambda: mu + rng.normal(size=(n, 1)), "gamma": lambda: mu * rng.gamma(2, 0.5, size=(n, 1)) + 1e-3,
         "invgauss": lambda: mu * np.exp(rng.normal(size=(n, 1)) * 0.4), "poisson": lambda: rng.poisson(mu) + 0.0,
         "binomial": lambda: rng.binomial(size, mu) / size}[c["fam"]]()

    def L(bt, ls):
        m = {"logit": scp.special.expit, "identity": lambda x: x, "log": np.exp}[c["link"]](X @ bt)
        return fam.llk(y, m, scale=np.exp(ls)) if two else fam.llk(y, m)

    d = lambda g, h: (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)
    ls = np.log(phi)
    num = np.array([d(lambda e: L(beta + e * np.eye(k)[:, [i]], ls), 1e-3) for i in range(k)])
    G = np.ravel(fam.dllkdcoef(beta, y, scp.sparse.csc_array(X), **({"scale": phi} if two else {})))
    ctx.close("score", G, num, rtol=1e-6, atol=1e-6, msg=f"{c['fam']}/{c['link']} score in the coefficients", scale=np.abs(num).max() + 1)
    args = (beta, y, scp.sparse.csc_array(X))
    if two:
        g1 = d(lambda e: L(beta, ls + e), 1e-3)
        g2 = d(lambda e: d(lambda u: L(beta, ls + e + u), 1e-3), 1e-3)
    else:
        g1 = g2 = 0.0
    ctx.close("score_scale", fam.dllkdlscale(*args, scale=phi), g1, rtol=1e-3, atol=1e-3, msg="score in the log scale", scale=abs(g1) + n)
    ctx.close("curv_scale", fam.d2llkd2lscale(*args, scale=phi), g2, rtol=1e-3, atol=1e-3, msg="curvature in the log scale", scale=abs(g2) + n)
