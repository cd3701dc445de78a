"""C02: the HSMM log-likelihood and the probabilities it is built from follow the model definition."""

import numpy as np

from vlib import hsmm_ref as H

RULE = ("random HSMMs (2-5 states, 1-3 signals, D 2..8, 1-3 series incl. one-sample series, every "
        "combination of start/end conventions, fixed/estimated/time-varying dynamics, shared terms, borrowed "
        "matrices, multivariate normal and event-template emissions); non-trivial = a finite reference value "
        "was compared with the library's value")
ASSUMPTIONS = ["emission densities do not underflow (the library works with densities, not log densities)",
               "AR1 event models are left-to-right; the constant of the AR1 Jacobian and of the multivariate "
               "normal density are not part of the property",
               "reference: log-space sum over visits, itself compared with exhaustive enumeration on small cases"]
REQUIRED = ["llk", "enumeration_agrees", "duration_probs", "emission_probs", "transition_probs"]
KNOWN_WRONG = "hmp-shared-multisignal"


def tag(c):
    if c["kind"] == "hmp" and c["shared"] and c["M"] > 1:
        c["tag"] = KNOWN_WRONG
    return c


def gen(rng, kind, maxlen):
    c = H.random_case(rng, kind, maxlen=maxlen)
    if c.get("rho") is not None:
        c["lr"] = True
    return tag(c)


def cases(tier, seed):
    n = 420 if tier == "quick" else 6000
    rng = np.random.default_rng([2, seed])
    out = []
    kinds = ["std", "std", "mvn", "hmp"]
    for k in range(n):
        c = gen(rng, kinds[k % 4], 16 if k % 5 else 45)
        c["ncores"] = 2 if k % 40 == 0 else 1
        c["override"] = bool(k % 7 == 0)
        out.append(c)
    return out


def run_case(c, ctx):
    P = H.make(c)
    kw, lk = {}, {}
    if c.get("override"):
        # a family set up for other series is told about the series at call time
        lk = dict(sid=np.array([0]), tid=np.array([0]))
        kw = dict(sid=P.sid, tid=P.tid)
    fam, co, si, ys, Xs = H.library(P, n_cores=c.get("ncores", 1), **lk)
    keep = [co.copy()] + [None if y is None else y.copy() for y in ys]
    got = fam.llk(co, si, ys, Xs, **kw)
    if P.rho is not None:
        got = got + (P.n - P.ns) * -0.5 * np.log(1 - P.rho ** 2)
    ref = [H.segment_llk(P, s) for s in range(P.ns)]
    want = float(np.sum(ref))
    if c.get("tag") == KNOWN_WRONG:
        wrong = wrong_llk(P)
        d = lambda a, b: (a == b) or abs(a - b) <= 1e-7 * max(1, abs(b))
        if not d(got, want):
            ctx.fail("llk", ("first-signal-reused: " if d(got, wrong) else "") + f"llk {got} want {want} (known-wrong {wrong})")
        ctx.seen("llk")
    else:
        ctx.close("llk", got, want, rtol=1e-8, atol=1e-8, msg="log-likelihood")
    if np.isfinite(want):
        ctx.seen("finite_llk")
    ctx.ok("inputs_untouched", np.array_equal(co, keep[0]) and all(
        (a is None and b is None) or np.array_equal(a, b) for a, b in zip(ys, keep[1:])), "llk modified its inputs")
    ctx.sample = {"llk": float(got), "reference": want}
    for s in range(P.ns):
        if P.lens[s] <= 6 and P.nS <= 4:
            ps = [w for w, _ in H.paths(P, s)]
            e = H.scp.special.logsumexp(ps) if ps else -np.inf
            if not (e == ref[s] or abs(e - ref[s]) < 1e-8):
                raise RuntimeError(f"reference disagrees with enumeration: {e} {ref[s]}")
            ctx.seen("enumeration_agrees")
    # probabilities
    for log in (True, False):
        od = fam.compute_od_probs(co, si, ys, Xs, log=log, **kw)
        for s in range(P.ns):
            logb, logd, T, pi, ex = H.series_probs(P, s)
            bs, ds = od[s]
            want_d = np.transpose(logd, (1, 0, 2))
            if not P.tv:
                want_d = want_d[:, :, 0]
            g = np.asarray(ds) if not log else np.exp(ds)
            ctx.close("duration_probs", g, np.exp(want_d), rtol=1e-8, atol=1e-10, msg=f"durations log={log}")
            ctx.close("durations_sum_to_one", g.sum(axis=0), np.ones(g.shape[1:]), rtol=1e-8, msg="sum")
            L = P.lens[s]
            if not P.hmp:
                w = np.array([[logb(j, t, 0, None) for j in range(P.nS)] for t in range(L)])
                g = np.log(bs) if not log else np.asarray(bs)
                ctx.close("emission_probs", g, w, rtol=1e-8, atol=1e-8, msg=f"emissions log={log}")
            elif c.get("tag") != KNOWN_WRONG:
                g = np.log(bs) if not log else np.asarray(bs)
                for j in range(P.nS):
                    if j % 2 == 1:
                        w = np.array([[logb(j, t, k, j - 1) for k in range(P.W)] for t in range(1, L)])
                        ctx.close("emission_probs", g[1:, :, j], w, rtol=1e-8, atol=1e-8, msg="bump emissions")
                    else:
                        w = np.array([logb(j, t, 1, j) for t in range(L)])
                        ctx.close("emission_probs", g[:, 0, j], w, rtol=1e-8, atol=1e-8, msg="flat emissions")
    if not P.hmp:
        tp = fam.compute_Tpi(co, si, ys, Xs, **kw)
        for s in range(P.ns):
            _, _, T, pi, _ = H.series_probs(P, s)
            Tg, pg = tp[s]
            Tg = np.asarray(Tg, dtype=float)
            if Tg.ndim == 4:
                Tg = Tg[..., 0]
            if Tg.ndim == 2:
                Tg = Tg[:, :, None]
            if Tg.shape[2] != T.shape[2]:
                T = T[:, :, :Tg.shape[2]]
            ctx.close("transition_probs", Tg, T, rtol=1e-9, atol=1e-12, msg="T")
            ctx.close("initial_probs", np.asarray(pg).ravel(), pi, rtol=1e-9, atol=1e-12, msg="pi")
            if not (P.fixed and c.get("lr")):
                ctx.close("rows_sum_to_one", Tg.sum(axis=1), np.ones(Tg.sum(axis=1).shape), rtol=1e-9, msg="rows")


def wrong_llk(P):
    """What the known defect computes: later signals replaced because the shared slots shift the index."""
    Y = P.Y.copy()
    if P.shared == "m":
        P.Y = np.repeat(Y[:, :1], P.M, axis=1)
    else:
        cols = [0] + [m - 1 for m in range(1, P.M)]
        P.Y = Y[:, cols]
    w = sum(H.segment_llk(P, s) for s in range(P.ns))
    P.Y = Y
    return float(w)
