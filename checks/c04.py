"""C04: decoded state sequences are optimal, sampled ones follow the exact posterior."""

import numpy as np
import scipy as scp

from checks.c02 import KNOWN_WRONG, gen
from vlib import hsmm_ref as H

RULE = ("random HSMM problems as in C02; decode: weight of the decoded path against the maximum over all visit "
        "sequences; samples: 3000 draws against the enumerated posterior; non-trivial = at least one feasible path")
ASSUMPTIONS = ["posterior comparison is a G-test at p<1e-8 on pooled path classes and on per-sample state marginals"]
REQUIRED = ["viterbi_optimal", "posterior_paths", "posterior_marginals", "sample_admissible"]
PCUT = 1e-8


def cases(tier, seed):
    n = 330 if tier == "quick" else 4500
    rng = np.random.default_rng([4, seed])
    out = []
    kinds = ["std", "std", "mvn", "hmp", "hmp"]
    while len(out) < n:
        k = len(out)
        c = gen(rng, kinds[k % 5], 9 if k % 3 else 24)
        if c.get("tag") == KNOWN_WRONG:
            c["shared"] = None
            c.pop("tag")
        c["nsamp"] = 3000
        c["pseed"] = int(rng.integers(1, 1000))
        c["ncores"] = 2 if k % 45 == 0 else 1
        out.append(c)
    return out


def gtest(obs, p, n):
    """pooled G-test p-value; categories with expected < 5 pooled."""
    exp = p * n
    order = np.argsort(exp)
    o, e = [], []
    po = pe = 0.0
    for k in order:
        if exp[k] < 5:
            po += obs[k]
            pe += exp[k]
        else:
            o.append(obs[k])
            e.append(exp[k])
    if pe > 0:
        if pe >= 5 or not o:
            o.append(po)
            e.append(pe)
        else:
            o[0] += po
            e[0] += pe
    o, e = np.array(o), np.array(e)
    if len(o) < 2:
        return 1.0, len(o)
    stat = np.sum((o - e) ** 2 / e)
    return float(scp.stats.chi2.sf(stat, len(o) - 1)), len(o)


def run_case(c, ctx):
    P = H.make(c)
    ref = [H.segment_llk(P, s, best=True) for s in range(P.ns)]
    if not np.all(np.isfinite(ref)):
        ctx.skip("infeasible series")
    fam, co, si, ys, Xs = H.library(P, n_cores=c.get("ncores", 1))
    dec = fam.decode_viterbi(co, si, ys, Xs)
    ctx.ok("one_result_per_series", len(dec) == P.ns, f"{len(dec)} results for {P.ns} series")
    for s in range(P.ns):
        ed, st = dec[s]
        w = H.path_weight(P, s, st, int(ed))
        ctx.ok("viterbi_optimal", np.isfinite(w) and w >= ref[s] - 1e-7 * max(1, abs(ref[s])),
               f"series {s}: decoded path has log weight {w}, best is {ref[s]} (states {np.asarray(st).tolist()} excess {ed})")
    n = c["nsamp"]
    smp = fam.sample_posterior_states(co, si, ys, Xs, n_samples=n, seed=c["pseed"])
    smp2, smp3 = (fam.sample_posterior_states(co, si, ys, Xs, n_samples=20, seed=c["pseed"]) for _ in range(2))
    for s in range(P.ns):
        eds, sts = np.asarray(smp[s][0]), np.asarray(smp[s][1])
        if not ctx.ok("sample_shape", sts.shape == (P.lens[s], n) and eds.shape == (n,), f"shapes {sts.shape} {eds.shape}"):
            continue
        ctx.ok("same_seed_same_samples", np.array_equal(np.asarray(smp2[s][1]), np.asarray(smp3[s][1])), "seeded samples differ")
        full = H.segment_llk(P, s)
        paths = H.paths(P, s, cap=4000) if P.lens[s] <= 18 else None
        if paths is None:
            # only admissibility of distinct samples
            for k in range(0, n, n // 40):
                w = H.path_weight(P, s, sts[:, k], eds[k])
                ctx.ok("sample_admissible", np.isfinite(w), f"series {s}: sampled path has probability zero: {sts[:, k].tolist()} ed={eds[k]}")
            continue
        L = P.lens[s]
        keys, pr = {}, []
        marg = np.zeros((L, P.nS))
        for w, seq in paths:
            z = H.states_of(seq, L)
            j, t, d = seq[-1]
            p = np.exp(w - full)
            keys[(tuple(z.tolist()), t + d - L)] = len(pr)
            pr.append(p)
            marg[np.arange(L), z] += p
        pr = np.array(pr)
        cnt = np.zeros(len(pr))
        badp = None
        for k in range(n):
            key = (tuple(sts[:, k].tolist()), int(eds[k]))
            if key in keys:
                cnt[keys[key]] += 1
            else:
                badp = key
        if not ctx.ok("sample_admissible", badp is None, f"series {s}: sampled path has probability zero: {badp}"):
            continue
        p, df = gtest(cnt, pr, n)
        ctx.ok("posterior_paths", p > PCUT, f"series {s}: path frequencies differ from the posterior, p={p:.3g} over {df} classes")
        pm = 1.0
        for t in range(L):
            q, _ = gtest(np.bincount(sts[t], minlength=P.nS).astype(float), marg[t], n)
            pm = min(pm, q)
        ctx.ok("posterior_marginals", pm > PCUT, f"series {s}: state marginals differ from the posterior, p={pm:.3g}")
    ctx.sample = {"best_log_weight": ref, "excess": [int(d[0]) for d in dec]}
