"""Fitted GAMMs: the reported smoothing parameters (and scale) maximise the restricted likelihood (locally)."""
import numpy as np

from checks.c15 import dropped, parts
from vlib import fit_ref as F

RULE = ("random penalised models (families, solvers, lambda extension and control options, ar1 models, offsets, shared smoothing parameters); "
        "non-trivial = the fit reported convergence and the restricted likelihood was evaluated densely at and around the reported smoothing parameters")
ASSUMPTIONS = ["for non-Gaussian models the criterion is the restricted likelihood of the working linear model at convergence (the weights' dependence on the smoothing parameters is ignored by the method)",
               "smoothing parameters are confined to [1e-7, 1e7]"]
REQUIRED = ["reml_gain", "scale_reml", "glm", "gauss", "shared", "frozen"]
CASE_TIMEOUT = 240


def cases(tier, seed):
    rng = np.random.default_rng([18, seed])
    out = []
    for k in range(150 if tier == "quick" else 2500):
        c = {"seed": int(rng.integers(2**31)), "fam": (["gauss"] + F.FAMS)[k % 9], "method": str(rng.choice(["QR", "Chol"])), "tol": 1e-8}
        q = k % 8
        if q == 1:
            c["offset"] = str(rng.choice(["scalar", "array"]))
        if q in (2, 6):
            c["ar"] = str(rng.choice(["one", "series"]))
            c["fam"] = "gauss"
        if q == 3:
            c["ext"] = True
            c["extm"] = str(rng.choice(["nesterov", "nesterov2", "expected_ratio"]))
            c["control"] = int(rng.choice([1, 2]))
        if q == 4:
            c["control"] = int(rng.choice([0, 1, 2]))
        if q == 5:
            c["exclude"] = True
        if q == 7 and c["fam"] == "gauss":
            c["freeze"] = True
        out.append(c)
    for k in range(16 if tier == "quick" else 250):
        out.append({"seed": int(rng.integers(2**31)), "fam": "t", "method": str(rng.choice(["QR", "Chol"])), "tol": 1e-8, **[{}, {"offset": "array"}, {"ext": True, "extm": "nesterov", "control": 2}, {}][k % 4]})
    return out


def run_case(c, ctx):
    P = F.problem(c)
    if c.get("extm"):
        P.kw["extension_method_lam"] = c["extm"]
    if c.get("exclude"):
        P.kw["exclude_lambda"] = True
    P.kw["max_outer"] = 500
    if c.get("freeze"):
        return freeze(P, c, ctx)
    m = F.fit(P)
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    if not m.overall_penalties or dropped(m):
        ctx.skip("nothing to judge")
    judge(P, m, c, ctx, range(len(m.overall_penalties)))


def judge(P, m, c, ctx, which):
    X, b, S, eta, g, XWX, r, mu = parts(P, m)
    n, p = X.shape
    pens = m.overall_penalties
    lam = np.array([float(t.lam) for t in pens])
    Sj = [t.S_J_emb.toarray() for t in pens]
    B = sum(s / np.abs(s).max() for s in Sj)
    e, U = np.linalg.eigh(B)
    if np.any((e > 1e-12 * e.max()) & (e < 1e-7 * e.max())):
        ctx.skip("rank of the penalty not numerically clear")
    U = U[:, e > 1e-9 * e.max()]
    Mp = p - U.shape[1]
    # working linear model at convergence: r = sqrt(w)(z - X b), X'W z = g + XWX b
    Xz = g + XWX @ b
    zz = float(r @ r) + 2 * b @ g + b @ XWX @ b
    gauss = P.fam == "gauss" and P.fixscale is None
    phi = float(m.scale)

    def reml(lm):
        T = sum(a * s for a, s in zip(lm, Sj))
        A = XWX + T
        d = 1 / np.sqrt(np.diag(A))
        Ac = A * d[:, None] * d[None, :]
        bb = d * np.linalg.solve(Ac, d * Xz)
        D = zz - bb @ Xz
        M = U.T @ T @ U
        dm = 1 / np.sqrt(np.diag(M))
        Mc = M * dm[:, None] * dm[None, :]
        ldS = np.linalg.slogdet(Mc)[1] - 2 * np.log(dm).sum()
        ldA = np.linalg.slogdet(Ac)[1] - 2 * np.log(d).sum()
        if gauss:
            return -(n - Mp) / 2 * np.log(D) + ldS / 2 - ldA / 2, D / (n - Mp), np.linalg.cond(Ac), np.linalg.cond(Mc)
        return -D / phi / 2 + ldS / 2 - ldA / 2, D / (n - Mp), np.linalg.cond(Ac), np.linalg.cond(Mc)

    r0, ph, k1, k2 = reml(lam)
    if k1 > 1e9 or k2 > 1e10:
        ctx.skip("ill-conditioned")
    gains = {}
    for j in which:
        if c.get("exclude") and lam[j] > 5e4:
            continue
        for f in (0.5, 0.8, 1.25, 2.0):
            lm = lam.copy()
            lm[j] *= f
            if 1e-7 <= lm[j] <= 1e7:
                gains[(j, f)] = reml(lm)[0] - r0
    worst = max(gains, key=gains.get) if gains else None
    if worst is not None:
        ctx.close("reml_gain", max(gains[worst], 0), 0, rtol=0, atol=tol(c, P), msg=f"restricted likelihood gained by changing smoothing parameter {worst[0]} by factor {worst[1]} ({P.fam}, {P.kw}, lambda {np.round(lam, 4)})")
    if gauss and not c.get("freeze"):
        ctx.close("scale_reml", ph, phi, rtol=1e-2, atol=0, msg="scale is the restricted maximum likelihood estimate")
    ctx.seen("gauss" if gauss else "glm")
    if any(t.rep_sj > 1 for t in pens):
        ctx.seen("shared")
    ctx.sample = {"fam": P.fam, "lambda": [float(a) for a in lam], "gain": gains.get(worst), "iter": int(m.info.iter)}


def tol(c, P):
    return 0.06


def aggregate(recs, tier):
    """Single fits may stop early on a flat criterion (by up to the tolerance above), but hardly ever do."""
    g = [(r.get("sample") or {}).get("gain") for r in recs]
    g = np.array([a for a in g if a is not None])
    rec = {"case": {"aggregate": "gains"}, "status": "held", "bad": [], "events": {"gain_rate": 1}, "maxerr": {}}
    if len(g) > 30 and np.mean(g > 0.005) > 0.1:
        rec["status"] = "violated"
        rec["bad"] = [{"monitor": "gain_rate", "message": f"{int((g > 0.005).sum())} of {len(g)} fits have a smoothing parameter that can be improved (median gain {np.median(g):.3g})", "detail": None}]
    return [rec]


def freeze(P, c, ctx):
    """A refit with one smoothing parameter held fixed leaves it alone and optimises the others."""
    from mssm.models import GAMM
    import warnings
    m = F.fit(P)
    if m.info.code != 0 or len(m.overall_penalties) < 2 or dropped(m):
        ctx.skip("nothing to judge")
    rng = np.random.default_rng(c["seed"])
    j = int(rng.integers(len(m.overall_penalties)))
    val = float(np.exp(rng.uniform(-3, 3)))
    pens = m.overall_penalties
    for t in pens:
        t.lam = 1.1
    pens[j].lam = val
    pens[j].frozen = True
    kw = {**P.kw, "n_cores": 1}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(progress_bar=False, restart=True, **kw)
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    ctx.close("frozen", float(m.overall_penalties[j].lam), val, rtol=0, atol=0, msg="a frozen smoothing parameter was changed")
    judge(P, m, c, ctx, [k for k in range(len(pens)) if k != j])
