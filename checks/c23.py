"""Model comparison (compare_CDL): likelihoods, degrees of freedom, AIC and the likelihood ratio test of two fitted models."""
import warnings

import numpy as np
import scipy.stats as st

from checks.c16 import loglik
from checks.c22 import quiet, same, snap
from vlib import fit_ref as F
from vlib import lss_ref as L
from vlib import unc_ref as U

RULE = ("pairs of random converged models of one family (GAMMs of every family with offsets and ar1 residuals, location-scale and general models, nested and not, both orders), with and without correction for smoothing parameter uncertainty, "
        "with and without test; non-trivial = the reported comparison was recomputed from dense likelihoods and degrees of freedom")
ASSUMPTIONS = ["models that do not report convergence are not judged", "corrected degrees of freedom are compared when the curvature of the score in the log smoothing parameters is clearly not zero",
               "the reference distributions are those the documentation names: chi-square, or F when the scale is estimated"]
REQUIRED = {"stat": 60, "dof_plain": 25, "dof_corr": 15, "dof_t1": 15, "aic": 60, "p": 20, "p_na": 20, "alpha": 20, "swap": 25, "pure": 60, "lss": 10, "reject": 15, "theta": 2}
CASE_TIMEOUT = 300


def cases(tier, seed):
    rng = np.random.default_rng([23, seed])
    q = tier == "quick"
    out = []
    fams = ["gauss", "gamma", "poisson", "binom1", "binomn", "gausslog", "invgauss", "gauss"]
    for k in range(48 if q else 600):
        c = {"k": "gam", "seed": int(rng.integers(2**31)), "fam": fams[k % 8], "weak": [None, 0.6, 0.1][k % 3]}
        if k % 8 == 7:
            c["ar"] = "series"
        elif k % 5 == 4:
            c["offset"] = "array"
        out.append(c)
    for k in range(16 if q else 200):
        out.append({"k": "lss", "kind": ["gaum", "gammals", "mulnom", "cox"][k % 4], "seed": int(rng.integers(2**31)), "weak": [None, 0.3][k % 2]})
    for k in range(4 if q else 40):
        out.append({"k": "t", "seed": int(rng.integers(2**31)), "fam": "t", "n": 300, "nona": True, "weak": [None, 0.3][k % 2]})
    return out


def models(c, ctx):
    if c["k"] == "lss":
        P = L.problem(c)
        m1 = L.fit(P)
        P2 = L.problem(c)
        j = next((i for i, s in enumerate(P2.specs) if sum(t["k"] == "f" for t in s) > (1 if i == 0 else 0)), None)
        if j is None:
            ctx.skip("no smooth to leave out")
        k = [i for i, t in enumerate(P2.specs[j]) if t["k"] == "f"][-1]
        P2.specs[j] = [t for i, t in enumerate(P2.specs[j]) if i != k]
        m2 = L.fit(P2)
        return P, m1, m2
    P = F.problem(c)
    v = np.random.default_rng(c["seed"]).permutation(["x0", "x1", "x2"])
    P.spec = [{"k": "i"}, {"k": "f", "v": [str(v[0])], "nk": 8}, {"k": "f", "v": [str(v[1])], "nk": 7}]
    m1 = F.fit(P)
    P.spec = P.spec[:2]
    m2 = F.fit(P)
    return P, m1, m2


def llk(P, m, c):
    if c["k"] == "lss":
        X, bs, x = L.mats(P, m)
        if P.fam == "cox":
            return L.cox_parts(P, X[0], bs[0])[0]
        return float(L.dens(P, [a @ q for a, q in zip(X, bs)], x, m.family.links).sum())
    if c["k"] == "t" or P.rho is not None:
        return float(np.squeeze(m.get_llk(False)))
    eta = U.dense(m.get_mmat()) @ np.asarray(m.coef).ravel() + F.off(P)
    return loglik(P.fam, P.y, F.lfi(P.fam, eta), float(m.scale), None if P.nb is None else P.nb[P.used])


def run_case(c, ctx):
    from mssm.src.python.compare import compare_CDL

    P, m1, m2 = models(c, ctx)
    if m1.info.code != 0 or m2.info.code != 0:
        ctx.skip("no convergence reported")
    if c["k"] == "lss":
        ctx.seen("lss")
    two = c["k"] != "lss" and bool(m1.family.twopar)
    extra = [1 if two else 0] * 2
    if c["k"] == "t":
        ctx.seen("theta")
        extra = [len(np.ravel(m.family.theta)) if m.family.est_theta else 0 for m in (m1, m2)]
    phi = [float(m.scale) if c["k"] != "lss" else 1.0 for m in (m1, m2)]
    R = [U.reference(m, f) for m, f in zip((m1, m2), phi)]
    if R[0] is None or R[1] is None:
        ctx.skip("ill-conditioned")
    ll = [llk(P, m, c) for m in (m1, m2)]
    edf = [float(m1.edf), float(m2.edf)]
    tV = []
    for r in R:
        v = None
        if r.clear and not r.d:
            v = np.trace((r.V + r.J @ r.Vp @ r.J.T + U.vcc(r)) @ r.H)
        tV.append(v)
    before = [snap(m1), snap(m2)]
    n = len(P.y)
    res = {}
    for corr in (False, True):
        for t1 in (False, True):
            for glrt in (False, True):
                if t1 != glrt and not (t1 and not glrt):
                    continue
                alpha = 0.05 if not t1 else 0.5
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = compare_CDL(m1, m2, correct_V=corr, correct_t1=t1, perform_GLRT=glrt, grid="JJJ1", alpha=alpha, n_c=1)
                res[corr, t1, glrt] = r
                tag = f"{c.get('fam', c.get('kind'))}, corrected {corr}, t1 {t1}, test {glrt}"
                ctx.close("stat", float(r["test_stat"]), 2 * (ll[0] - ll[1]), rtol=1e-7, atol=1e-5, msg=f"statistic is twice the log-likelihood difference ({tag})", scale=abs(ll[0]) + abs(ll[1]))
                # degrees of freedom of both models
                aic_dof, dof = [], []
                for i in range(2):
                    up = R[i].upper
                    if not corr:
                        e = edf[i]
                    elif tV[i] is None:
                        e = None
                    else:
                        e = min(tV[i], up)
                    aic_dof.append(None if e is None else e + extra[i])
                    if t1:
                        dof.append(None if e is None else (up + (e - edf[i] if corr else 0)) + extra[i])
                    else:
                        dof.append(aic_dof[-1])
                key = "dof_t1" if t1 else ("dof_corr" if corr else "dof_plain")
                d = [float(r["DOF1"]), float(r["DOF2"])]
                cond = [1 if not corr else np.abs(q.eig).max() / np.abs(q.eig).min() for q in R]
                for i in range(2):
                    if dof[i] is not None:
                        ctx.close(key, d[i], dof[i], rtol=1e-4, atol=1e-4 * (1 + cond[i]), msg=f"degrees of freedom of model {i + 1} ({tag})")
                # AIC is based on the edf (corrected for uncertainty) even when the test uses t1
                a = [float(r["aic1"]), float(r["aic2"])]
                ad = [r["DOF12"], r["DOF22"]] if t1 else d
                for i in range(2):
                    ctx.close("aic", a[i], -2 * ll[i] + 2 * float(ad[i]), rtol=1e-7, atol=1e-5, msg=f"AIC of model {i + 1} ({tag})", scale=abs(ll[i]))
                    if aic_dof[i] is not None:
                        ctx.close("aic_dof", float(ad[i]), aic_dof[i], rtol=1e-4, atol=1e-4 * (1 + cond[i]), msg=f"degrees of freedom of the AIC of model {i + 1} ({tag})")
                ctx.close("aic_diff", float(r["aic_diff"]), a[0] - a[1], rtol=1e-10, atol=1e-8, msg="AIC difference")
                ctx.close("res_dof", float(r["Res. DOF"]), d[0] - d[1], rtol=1e-10, atol=1e-8, msg="difference in degrees of freedom")
                if not t1:
                    ctx.ok("no_t1", r["DOF12"] is None and r["DOF22"] is None, "degrees of freedom of the AIC reported twice")
                stat = 2 * (ll[0] - ll[1])
                if ll[0] < ll[1] and d[0] < d[1]:
                    stat = -stat
                if not glrt or stat < -1e-6:
                    ctx.ok("p_na", np.isnan(r["p"]) and np.isnan(r["H1"]), f"p-value {r['p']} although no test is possible ({tag})")
                elif stat > 1e-6:
                    dd = abs(d[0] - d[1])
                    want = st.f.sf(stat / dd, dd, n - max(d)) if two else st.chi2.sf(stat, dd)
                    ctx.close("p", float(r["p"]), want, rtol=1e-3, atol=1e-6, msg=f"p-value ({tag}, {dd:.3f} degrees of freedom)")
                    ctx.ok("alpha", bool(r["H1"]) == bool(r["p"] <= alpha), f"decision at level {alpha} with p = {r['p']}")
    # automatic arguments
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        au = compare_CDL(m1, m2, n_c=1)
        ag = compare_CDL(m1, m2, n_c=1, perform_GLRT=True)
    for r, k in ((au, (True, False, False)), (ag, (True, True, True))):
        for x in ("DOF1", "DOF2", "aic1", "aic2", "test_stat"):
            ctx.close("default", float(r[x]), float(res[k][x]), rtol=1e-9, atol=1e-9, msg=f"{x} by default")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sw = compare_CDL(m2, m1, correct_V=True, correct_t1=False, perform_GLRT=False, grid="JJJ1", n_c=1)
    r = res[True, False, False]
    for a, b, s in (("DOF1", "DOF2", 1), ("DOF2", "DOF1", 1), ("aic1", "aic2", 1), ("aic2", "aic1", 1), ("aic_diff", "aic_diff", -1), ("test_stat", "test_stat", -1), ("Res. DOF", "Res. DOF", -1)):
        ctx.close("swap", float(sw[a]), s * float(r[b]), rtol=1e-8, atol=1e-8, msg=f"{a} with the models in the other order")
    if len(m1.coef) != len(m2.coef):
        try:
            quiet(compare_CDL, m2, m1, correct_V=False, perform_GLRT=True, n_c=1)
            ctx.fail("reject", "test of the simpler against the more complex model accepted")
        except ValueError:
            ctx.seen("reject")
    ctx.ok("pure", same(before, [snap(m1), snap(m2)]), "comparing models changes them")
