"""C06: simulated ("predicted") HSMM series follow the model: state process, emissions given states."""

import numpy as np
import scipy as scp
import scipy.stats as st

from checks.c02 import KNOWN_WRONG, gen
from checks.c04 import gtest
from vlib import hsmm_ref as H

RULE = ("random HSMM problems as in C02; 3000 simulated series per problem and series; non-trivial = at least two "
        "state sequences have expected count >= 5")
ASSUMPTIONS = ["statistical comparison at p<1e-8 per test; draws of different series may share their random numbers",
               "the last state of an event-template model is absorbing in simulations"]
REQUIRED = ["state_process", "emission_location", "emission_distribution", "emission_independence", "reproducible"]
PCUT = 1e-8
N = 3000
LONG = "every-visit-one-sample-too-long"


def cases(tier, seed):
    n = 240 if tier == "quick" else 3000
    rng = np.random.default_rng([6, seed])
    out = []
    kinds = ["std", "std", "mvn", "hmp", "hmp"]
    while len(out) < n:
        k = len(out)
        c = gen(rng, kinds[k % 5], 10)
        if c.get("tag") == KNOWN_WRONG:
            c["shared"] = None
            c.pop("tag")
        if c["lr"] and c["kind"] != "hmp":
            c["lr"] = False
        if c["kind"] == "hmp":
            c["lr"] = bool(rng.random() < 0.8)
            if not c["lr"]:
                c["rho"] = None
        c["pseed"] = int(rng.integers(1, 10000))
        c["newscale"] = bool(c["kind"] == "hmp" and rng.random() < 0.4)
        c["ncores"] = 2 if k % 45 == 0 else 1
        out.append(c)
    return out


def seq_dist(P, s, extra, cap=3000):
    """{state tuple: prob} of the state process over the samples of series s; durations d+extra.
    Sequences are cut after `h` samples where there would be too many."""
    _, logd, T, pi, _ = H.series_probs(P, s)
    L = P.lens[s]
    lastabs = P.hmp
    for h in range(L, 1, -1):
        out = {}
        stack = [((), None, 1.0)]
        ok = True
        while stack:
            z, prev, w = stack.pop()
            t = len(z)
            if t >= h:
                out[z[:h]] = out.get(z[:h], 0.0) + w
                if len(out) > cap:
                    ok = False
                    break
                continue
            if len(stack) > 20 * cap:
                ok = False
                break
            for j in range(P.nS):
                if prev is None:
                    pj = pi[j]
                elif prev == j:
                    continue
                else:
                    pj = T[prev, j, (t - 1) if P.tv else 0]
                if pj == 0:
                    continue
                if lastabs and j == P.nS - 1:
                    stack.append((z + (j,) * (h - t), j, w * pj))
                    continue
                rest = 0.0
                for d in range(1, P.D):
                    pd = np.exp(H._ld(P, logd, j, prev is None, d, t))
                    if pd == 0:
                        continue
                    if t + d + extra >= h:
                        rest += pd
                    else:
                        stack.append((z + (j,) * (d + extra), j, w * pj * pd))
                if rest > 0:
                    stack.append((z + (j,) * (h - t), j, w * pj * rest))
        if ok:
            return h, out
    return 0, {}


def test_states(sts, dist, h):
    keys = {z: i for i, z in enumerate(dist)}
    cnt = np.zeros(len(keys))
    for col in sts[:h].T:
        i = keys.get(tuple(col.tolist()))
        if i is None:
            return 0.0, f"impossible sequence {col.tolist()}"
        cnt[i] += 1
    p = np.array(list(dist.values()))
    if abs(p.sum() - 1) > 1e-6:
        return None, "process stops"
    pv, df = gtest(cnt, p, sts.shape[1])
    return pv, f"p={pv:.3g} over {df} classes"


def run_case(c, ctx):
    P = H.make(c)
    fam, co, si, ys, Xs = H.library(P, n_cores=c.get("ncores", 1))
    sc = {"scale": P.scale * 1.7} if c.get("newscale") else {}
    pr = fam.predict(co, si, ys, Xs, n_samples=N, seed=c["pseed"], **sc)
    a, b = (fam.predict(co, si, ys, Xs, n_samples=3, seed=c["pseed"], **sc) for _ in range(2))
    if sc:
        P.scale = sc["scale"]
    ctx.ok("reproducible", all(np.array_equal(x[0], y[0]) and np.array_equal(x[1], y[1]) for x, y in zip(a, b)),
           "same seed, different simulations")
    if not ctx.ok("one_result_per_series", len(pr) == P.ns, f"{len(pr)} results for {P.ns} series"):
        return
    nseq = 0
    for s in range(P.ns):
        L = P.lens[s]
        em, sts = np.asarray(pr[s][0]), np.asarray(pr[s][1])
        if not ctx.ok("shape", em.shape == (L, P.M, N) and sts.shape == (L, N), f"shapes {em.shape} {sts.shape}"):
            continue
        sts = sts.astype(int)
        if not ctx.ok("state_range", sts.min() >= 0 and sts.max() < P.nS, "state out of range"):
            continue
        extra = 0
        h, dist = seq_dist(P, s, 0)
        nseq += len(dist)
        if h >= 2:
            p, msg = test_states(sts, dist, h)
            if p is not None and p < PCUT:
                h2, d2 = seq_dist(P, s, 1)
                p2, msg2 = test_states(sts, d2, h2)
                if p2 is None or p2 >= PCUT:
                    ctx.fail("state_process", f"series {s}: {LONG}: {msg}")
                    extra = 1
                else:
                    ctx.fail("state_process", f"series {s}: simulated states differ from the model's process: {msg}; {msg2}")
                    continue
            ctx.seen("state_process")
        else:
            extra = None
        emissions(P, s, em, sts, extra, ctx)
    ctx.sample = {"distinct_state_sequences_possible": nseq}


def position(sts):
    q = np.zeros_like(sts)
    for t in range(1, sts.shape[0]):
        q[t] = np.where(sts[t] == sts[t - 1], q[t - 1] + 1, 0)
    return q


def emissions(P, s, em, sts, extra, ctx):
    probs = H.series_probs(P, s)
    par = probs[4]["par"]
    L, M = P.lens[s], P.M
    U, Z = [], []
    if P.hmp:
        if extra is None:
            return
        c = 1.0 if P.rho is None else 1 / np.sqrt(1 - P.rho ** 2)
        r = 0.0 if P.rho is None else P.rho
        # whiten, subtract the expected pattern
        y = em.copy()
        if P.rho is not None:
            y[1:] = c * em[1:] - r * c * em[:-1]
        ok = []
        for mode in ((0, 1) if extra == 0 else (1,)):
            mu = hmp_mean(P, par, sts, mode, c, r)
            res = (y - mu)
            g = res / np.sqrt(P.scale) if P.hmp_fam == "Gaussian" else None
            if g is None:
                u = st.expon.cdf(res ** 2, scale=P.scale)
                lo = (np.mean(np.sign(res), axis=2) * np.sqrt(N)).ravel()
            else:
                u = st.norm.cdf(g)
                lo = (g.mean(axis=2) * np.sqrt(N)).ravel()
            ks = min(st.kstest(u[:, m].ravel()[: 20000], "uniform").pvalue for m in range(M))
            ok.append((mode, float(np.max(np.abs(lo))), ks))
        mode, lo, ks = ok[0]
        if mode == 0 and (lo > 7 or ks < PCUT) and len(ok) > 1 and ok[1][1] <= 7 and ok[1][2] >= PCUT:
            ctx.fail("emission_location", f"series {s}: {LONG}")
            mode, lo, ks = ok[1]
        ctx.ok("emission_location", lo <= 7, f"series {s}: mean of simulated emissions is off by {lo:.3g} standard errors (mode {mode})")
        ctx.ok("emission_distribution", ks >= PCUT, f"series {s}: distribution of simulated emissions, p={ks:.3g}")
        return
    worst = 0.0
    pmin = 1.0
    G = np.zeros((L, M, N))  # normal scores
    for j in range(P.nS):
        for t in range(L):
            sel = sts[t] == j
            n = int(sel.sum())
            if n == 0:
                continue
            if P.obs == "mvn":
                R = np.zeros((M, M))
                i = 0
                for m in range(M):
                    R[m, m:] = P.thetas[j][i:i + M - m]
                    R[m, m] = np.exp(R[m, m])
                    i += M - m
                mu = np.array([par[(j, m, m)][t] for m in range(M)])
                z = (em[t][:, sel].T - mu) @ R.T
                G[t][:, sel] = z.T
                if n < 40:
                    continue
                worst = max(worst, np.max(np.abs(z.mean(axis=0))) * np.sqrt(n))
                pmin = min(pmin, min(st.kstest(z[:, m], "norm").pvalue for m in range(M)))
                for a in range(M):
                    for b in range(a):
                        worst = max(worst, abs(np.mean(z[:, a] * z[:, b])) * np.sqrt(n))
                continue
            for m in range(M):
                kd = P.kinds[j][m]
                ps = [par[(j, m, p)][t] for p in range(H.npar(kd))]
                y = em[t, m, sel]
                if n < 40 and kd.startswith("cat"):
                    continue
                if kd.startswith("cat"):
                    K = H.npar(kd) + 1
                    w = np.array([1.0] + ps)
                    if not ctx.ok("emission_support", np.all(np.isin(y, np.arange(K))), "class out of range"):
                        continue
                    q, _ = gtest(np.bincount(y.astype(int), minlength=K).astype(float), w / w.sum(), n)
                    pmin = min(pmin, q)
                    continue
                u = H.fam_cdf(kd, y, ps)
                G[t, m, sel] = st.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12))
                if n < 40:
                    continue
                worst = max(worst, abs(np.mean(u) - 0.5) * np.sqrt(12 * n))
                pmin = min(pmin, st.kstest(u, "uniform").pvalue)
    dep = 0.0
    for t in range(1, L):
        for m in range(M):
            for m2 in range(M):
                dep = max(dep, abs(np.mean(G[t, m] * G[t - 1, m2])) * np.sqrt(N))
                if m2 < m:
                    dep = max(dep, abs(np.mean(G[t, m] * G[t, m2])) * np.sqrt(N))
    ctx.ok("emission_independence", dep <= 7.5, f"series {s}: simulated emissions of different samples or signals are correlated, {dep:.3g} standard errors")
    ctx.ok("emission_location", worst <= 7, f"series {s}: simulated emissions are off by {worst:.3g} standard errors")
    ctx.ok("emission_distribution", pmin >= PCUT / 10, f"series {s}: distribution of simulated emissions, p={pmin:.3g}")


def hmp_mean(P, par, sts, mode, c, r):
    """expected whitened emission; mode 1: the known defect (visit one sample longer, its first sample
    carries the template's last value, no carry-over into the flat)."""
    L, n = sts.shape
    q = position(sts)
    mu = np.zeros((L, P.M, n))
    W = P.W
    for t in range(L):
        for m in range(P.M):
            for j in range(P.nS):
                sel = sts[t] == j
                if not sel.any():
                    continue
                if j % 2 == 1:
                    k = q[t][sel] - mode
                    if mode == 1:
                        k = np.where(k > W - 1, W - 1, k)
                    cur = P.template[np.clip(k, -1, W - 1)] * par[(j, m, 0)][t]
                    v = c * cur
                    if P.rho is not None and t > 0:
                        v = v - np.where(k > 0, r * c * P.template[np.clip(k - 1, 0, W - 1)] * par[(j, m, 0)][t - 1], 0)
                    mu[t, m, sel] = v
                elif mode == 0 and P.rho is not None and t > 0 and j > 0:
                    first = (q[t] == 0) & sel & (sts[t - 1] % 2 == 1)
                    if first.any():
                        mu[t, m, first] = -r * c * P.template[W - 1] * par[(j - 1, m, 0)][t - 1]
    return mu
