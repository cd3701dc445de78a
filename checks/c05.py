"""C05: HSMM residuals are what the fitted model says about each sample given the samples before it."""

import numpy as np
import scipy.stats as st

from checks.c02 import KNOWN_WRONG, gen
from vlib import hsmm_ref as H

RULE = ("random HSMM problems as in C02; every sample whose conditional distribution does not depend on the end "
        "convention is compared; non-trivial = at least one sample compared")
ASSUMPTIONS = ["samples close enough to a constrained end (within the longest duration) are not compared",
               "categorical and exponential event emissions have no residual of this kind and are not compared"]
REQUIRED = ["forward", "forward_normal", "predictive", "viterbi_dur", "posterior_dur"]


def cases(tier, seed):
    n = 320 if tier == "quick" else 5000
    rng = np.random.default_rng([5, seed])
    out = []
    kinds = ["std", "std", "mvn", "hmp", "hmp"]
    while len(out) < n:
        k = len(out)
        c = gen(rng, kinds[k % 5], 16 if k % 4 else 34)
        if c.get("tag") == KNOWN_WRONG:
            c["shared"] = None
            c.pop("tag")
        if c["obs"] == "cat3":
            c["obs"] = "gauss"
        c["hmp_fam"] = "Gaussian"
        if rng.random() < 0.5:
            c["ewl"] = c["eil"] = False
        c["ncores"] = 2 if k % 60 == 0 else 1
        out.append(c)
    return out


def run_case(c, ctx):
    P = H.make(c)
    if not np.all(np.isfinite([H.segment_llk(P, s) for s in range(P.ns)])):
        ctx.skip("infeasible series")
    fam, co, si, ys, Xs = H.library(P, n_cores=c.get("ncores", 1))
    fw = np.asarray(fam.get_resid(co, si, ys, Xs, resid_type="forward", transform_to_normal=False))
    fn = np.asarray(fam.get_resid(co, si, ys, Xs, resid_type="forward"))
    pr = np.asarray(fam.get_resid(co, si, ys, Xs, resid_type="predictive"))
    for nm, a in (("forward", fw), ("forward_normal", fn), ("predictive", pr)):
        if not ctx.ok("shape", a.shape == (P.n, P.M), f"{nm} has shape {a.shape}, want {(P.n, P.M)}"):
            return
    ncmp = 0
    for s in range(P.ns):
        probs = H.series_probs(P, s)
        cx = H.contexts(P, s, probs)
        cdf, mean = H.sample_cdf_mean(P, s, probs)
        L = P.lens[s]
        lim = L
        if P.ewl:
            lim = max(0, L - (P.D - 1))
        elif P.eil:
            lim = L - 1
        e, u = np.full((L, P.M), np.nan), np.full((L, P.M), np.nan)
        for t in range(lim):
            if cx[t] is None:
                break
            for m in range(P.M):
                u[t, m] = sum(w * cdf(j, t, k, pj, m) for w, j, k, pj in cx[t])
                e[t, m] = sum(w * mean(j, t, k, pj, m) for w, j, k, pj in cx[t])
        ok = ~np.isnan(u[:, 0])
        nt = int(ok.sum())
        if nt == 0:
            continue
        ncmp += nt
        r0 = P.sid[s]
        sl = slice(r0, r0 + nt)
        ctx.close("forward", fw[sl], u[:nt], rtol=1e-7, atol=1e-9, msg=f"series {s}: forward residual")
        inner = (u[:nt] > 1e-6) & (u[:nt] < 1 - 1e-6)
        ctx.close("forward_normal", np.where(inner, fn[sl], 0), np.where(inner, st.norm.ppf(u[:nt]), 0), rtol=1e-5, atol=1e-5,
                  msg=f"series {s}: normal forward residual")
        d = probs[4]["Y"][:nt] - e[:nt]
        want = np.cumsum(d, axis=0)
        want[1:] /= np.sqrt(np.cumsum(d ** 2, axis=0))[1:]
        ctx.close("predictive", pr[sl], want, rtol=1e-7, atol=1e-8, msg=f"series {s}: predictive residual")
    ctx.sample = {"samples_compared": ncmp}
    durations(P, c, ctx, fam, co, si, ys, Xs)


def durations(P, c, ctx, fam, co, si, ys, Xs):
    dec = fam.decode_viterbi(co, si, ys, Xs)
    got = np.asarray(fam.get_resid(co, si, ys, Xs, resid_type="viterbi_dur"))
    if not ctx.ok("shape", got.shape == (P.ns, P.nS), f"viterbi_dur has shape {got.shape}"):
        return
    for s in range(P.ns):
        ctx.close("viterbi_dur", got[s], dur_resid(P, s, dec[s][1]), rtol=1e-7, atol=1e-8,
                  msg=f"series {s}: duration residual of the decoded path {np.asarray(dec[s][1]).tolist()}")
    nsamp = 12
    smp = fam.sample_posterior_states(co, si, ys, Xs, n_samples=nsamp, seed=7)
    got = np.asarray(fam.get_resid(co, si, ys, Xs, resid_type="posterior_dur", n_samples=nsamp, seed=7))
    if not ctx.ok("shape", got.shape == (P.ns, P.nS, nsamp), f"posterior_dur has shape {got.shape}"):
        return
    for s in range(P.ns):
        want = np.stack([dur_resid(P, s, np.asarray(smp[s][1])[:, k]) for k in range(nsamp)], axis=1)
        ctx.close("posterior_dur", got[s], want, rtol=1e-7, atol=1e-8, msg=f"series {s}: duration residual of sampled paths")


def dur_resid(P, s, states):
    """mean standardised deviance residual of the visit lengths, per state; nan where there is none."""
    z = np.asarray(states).astype(int)
    L = len(z)
    dp = H.dur_pars(P, s)
    acc = [[] for _ in range(P.nS)]
    cuts = [0] + [t for t in range(1, L) if z[t] != z[t - 1]] + [L]
    for a, b in zip(cuts[:-1], cuts[1:]):
        j = z[a]
        jj = j if (a == 0 or P.swf) else j + P.nS
        if (jj, 0) not in dp:
            continue
        mu, phi = (dp[(jj, p)][a if P.tv else 0] for p in range(2))
        d = b - a
        acc[j].append(np.sign(d - mu) * np.sqrt(max(0, 2 * ((d - mu) / mu - np.log(d / mu)))) / np.sqrt(phi))
    return np.array([np.mean(v) if v else np.nan for v in acc])
