"""Reference semantics of hidden semi-Markov models, written independently of the code under test:
a generator of random problems and exact segment-based computations on them."""

import itertools

import numpy as np
import scipy as scp
import scipy.stats as st


# ----------------------------------------------------------------- densities, own formulas
def link_inv(name, eta, b=0.0):
    if name == "id":
        return eta
    if name == "log":
        return np.exp(eta)
    if name == "logb":
        return np.exp(eta) - b
    raise ValueError(name)


FAM_LINKS = {"gauss": ["id", "logb"], "gamma": ["log", "logb"]}
B = -0.0001


def fam_logpdf(kind, y, pars):
    if kind == "gauss":
        mu, s = pars
        return -0.5 * np.log(2 * np.pi) - np.log(s) - 0.5 * ((y - mu) / s) ** 2
    if kind == "gamma":
        mu, phi = pars
        a = 1 / phi
        return a * np.log(a / mu) + (a - 1) * np.log(y) - a * y / mu - scp.special.gammaln(a)
    if kind.startswith("cat"):
        den = np.log1p(np.sum(pars, axis=0))
        num = np.zeros_like(den)
        for k, p in enumerate(pars):
            num = np.where(y == k + 1, np.log(p), num)
        return num - den
    raise ValueError(kind)


def fam_cdf(kind, y, pars):
    if kind == "gauss":
        return st.norm.cdf((y - pars[0]) / pars[1])
    if kind == "gamma":
        return scp.special.gammainc(1 / pars[1], y / (pars[0] * pars[1]))
    raise ValueError(kind)


def npar(kind):
    return int(kind[3:]) - 1 if kind.startswith("cat") else 2


def links_of(kind, alt=False):
    if kind.startswith("cat"):
        return ["log"] * npar(kind)
    if alt:
        return {"gauss": ["log", "log"], "gamma": ["log", "log"]}[kind]
    return FAM_LINKS[kind]


# ----------------------------------------------------------------- problem
class Problem:
    """One random HSMM with data; holds everything needed for the library and the reference."""

    pass


def _design(rng, n, k):
    X = rng.normal(size=(n, k)) * 0.5
    X[:, 0] = 1.0
    return X


def make(case):
    """case: json-able dict of options incl. 'seed'. Builds a Problem (no library objects)."""
    rng = np.random.default_rng(case["seed"])
    P = Problem()
    P.case = case
    P.nS = nS = case["nS"]
    P.M = M = case["M"]
    P.D = D = case["D"]
    P.swf, P.ewl, P.eil = case["swf"], case["ewl"], case["eil"]
    P.tv = case["tv"]
    P.hmp = case.get("hmp", False)
    P.fixed = case["fixed"]  # None | 'one' | 'list'
    P.obs = case["obs"]  # 'gauss','gamma','mixed','cat3','mvn','hmp'
    P.lens = list(case["lens"])
    P.shared = case.get("shared", None)  # None|'m'|'all'
    P.shared_pars = [] if not P.shared else ([0, 1] if case.get("shared2") else [0])
    P.rho = case.get("rho", None)
    P.hmp_fam = case.get("hmp_fam", "Gaussian")
    n = sum(P.lens)
    ns = len(P.lens)
    P.sid = np.concatenate([[0], np.cumsum(P.lens)[:-1]]).astype(int)
    P.tid = P.sid.copy() if P.tv else np.arange(ns)
    P.n = n
    P.ns = ns
    amp = case.get("amp", 1.0)

    # emission kinds per state/signal
    P.kinds = []
    for j in range(nS):
        if P.obs == "mixed":
            P.kinds.append([["gauss", "gamma"][(m) % 2] for m in range(M)])
        elif P.obs in ("mvn", "hmp"):
            P.kinds.append([P.obs] * M)
        else:
            P.kinds.append([P.obs] * M)
    # data per signal
    P.Y = np.zeros((n, M))
    for m in range(M):
        kind = P.kinds[0][m]
        if kind == "gamma":
            P.Y[:, m] = rng.gamma(2.0, 1.0, size=n) + 1e-3
        elif kind.startswith("cat"):
            P.Y[:, m] = rng.integers(0, int(kind[3:]), size=n)
        else:
            P.Y[:, m] = rng.normal(size=n) * amp
    P.W = case.get("W", 0) if P.hmp else 0
    P.template = np.sin(np.pi * (np.arange(P.W) + 1) / (P.W + 1)) if P.hmp else None
    P.scale = case.get("scale", 1.0)

    slots = []

    def k_of():
        return int(rng.integers(1, 4))

    # shared part of emission parameter 0
    if P.shared:
        reps = 1 if P.shared == "all" else M
        for sp in P.shared_pars:
            for m in range(reps):
                k = k_of()
                slots.append(dict(role="shared", m=m, par=sp, X=_design(rng, n, k) * 0.5, y=P.Y[:, m] if P.shared != "all" else P.Y[:, 0]))
    for j in range(nS):
        if P.obs == "mvn":
            for m in range(M):
                slots.append(dict(role="obs", j=j, m=m, par=m, link="log" if case.get("alt") else "id", X=_design(rng, n, k_of()), y=P.Y[:, m]))
            continue
        for m in range(M):
            kd = P.kinds[j][m]
            if kd == "hmp":
                if j % 2 == 1:
                    slots.append(dict(role="obs", j=j, m=m, par=0, link="id", X=_design(rng, n, k_of()), y=P.Y[:, m]))
                continue
            for p in range(npar(kd)):
                slots.append(dict(role="obs", j=j, m=m, par=p, link=links_of(kd, case.get("alt"))[p], X=_design(rng, n, k_of()), y=P.Y[:, m]))
    nrow = n if P.tv else ns
    pseudo = np.ones(nrow)
    for j in range(nS * (1 if P.swf else 2)):
        if P.hmp and j % 2 == 1:
            continue
        for p in range(2):
            slots.append(dict(role="dur", j=j, par=p, link=links_of("gamma", case.get("alt"))[p], X=_design(rng, nrow, k_of()), y=pseudo))
    if not P.fixed:
        if nS > 2:
            for j in range(nS):
                for p in range(nS - 2):
                    slots.append(dict(role="T", j=j, par=p, link="log", X=_design(rng, nrow, k_of()), y=pseudo))
        for p in range(nS - 1):
            slots.append(dict(role="pi", par=p, link="log", X=_design(rng, nrow, k_of()), y=pseudo))
    # coefficients
    for s in slots:
        k = s["X"].shape[1]
        c = rng.normal(size=k) * 0.4
        if s["role"] == "dur":
            c = rng.normal(size=k) * 0.2
            c[0] += np.log(max(1.5, D / 3.0)) if s["par"] == 0 else np.log(0.4)
        s["coef"] = c
    P.slots = slots
    # reuse of model matrices (build_mat_idx): a later slot may borrow an earlier slot's matrix
    P.borrow = None
    if case.get("borrow"):
        P.borrow = []
        for a, s in enumerate(slots):
            src = a
            if rng.random() < 0.6:
                for b in range(a):
                    if slots[b]["X"].shape[0] == s["X"].shape[0] and P.borrow[b] == b and slots[b]["role"] != "pi" and s["role"] != "pi":
                        same = (slots[b]["role"] in ("obs", "shared")) == (s["role"] in ("obs", "shared"))
                        if same:
                            src = b
                            break
            P.borrow.append(src)
            if src != a:
                s["X"] = slots[src]["X"]
                k = s["X"].shape[1]
                old = s["coef"]
                new = np.zeros(k)
                new[: min(k, len(old))] = old[: min(k, len(old))]
                s["coef"] = new
    P.thetas = []
    if P.obs == "mvn":
        for j in range(nS):
            P.thetas.append(rng.normal(size=M * (M + 1) // 2) * 0.3)
    # fixed T/pi
    if P.fixed:
        def rT():
            T = rng.random((nS, nS)) + 0.1
            np.fill_diagonal(T, 0)
            if case.get("lr"):  # strict left to right
                T = np.diag(np.ones(nS - 1), 1)
                return T
            return T / T.sum(axis=1, keepdims=True)

        def rpi():
            if case.get("lr"):
                p = np.zeros(nS)
                p[0] = 1
                return p
            p = rng.random(nS) + 0.1
            return p / p.sum()

        def maybe_tv(T, L):
            if P.tv:
                return np.stack([rT() for _ in range(L)], axis=2)
            return T

        if P.fixed == "list":
            P.T = [maybe_tv(rT(), L) for L in P.lens]
            P.pi = [rpi() for _ in P.lens]
        else:
            P.T = maybe_tv(rT(), max(P.lens))
            P.pi = rpi()
    return P


def flat_coef(P):
    c = np.concatenate([s["coef"] for s in P.slots] + [t for t in P.thetas])
    return c.reshape(-1, 1)


def set_flat(P, c):
    c = np.asarray(c).ravel()
    i = 0
    for s in P.slots:
        k = len(s["coef"])
        s["coef"] = c[i:i + k]
        i += k
    for t in range(len(P.thetas)):
        k = len(P.thetas[t])
        P.thetas[t] = c[i:i + k]
        i += k


def split_idx(P):
    ks = [len(s["coef"]) for s in P.slots]
    tot = np.cumsum(ks)
    if P.thetas:
        return list(tot)
    return list(tot[:-1])


# ----------------------------------------------------------------- library objects
def library(P, n_cores=1, sid=None, tid=None):
    from mssm.src.python.exp_fam import GAMMALS, GAUMLSS, LOG, LOGb, MULNOMLSS, Identity, MultiGauss
    from mssm.src.python.hsmm import HSMMFamily

    LK = {"id": Identity(), "log": LOG(), "logb": LOGb(B)}

    alt = P.case.get("alt")

    def mk(kind):
        if kind in ("gauss", "gamma"):
            return {"gauss": GAUMLSS, "gamma": GAMMALS}[kind]([LK[x] for x in links_of(kind, alt)])
        if kind.startswith("cat"):
            return MULNOMLSS(npar(kind))
        return None

    obs = []
    for j in range(P.nS):
        if P.obs == "mvn":
            obs.append([MultiGauss(P.M, [LOG() if alt else Identity() for _ in range(P.M)])])
        else:
            obs.append([mk(k) for k in P.kinds[j]])
    dfam = []
    for j in range(P.nS * (1 if P.swf else 2)):
        dfam.append(None if (P.hmp and j % 2 == 1) else mk("gamma"))
    links = [LK[s.get("link", "id")] for s in P.slots]
    Lrhoi = None
    if P.rho is not None:
        Lrhoi = ar1_Lrhoi(P)
    fam = HSMMFamily(
        len(P.slots), links, P.nS, obs_fams=obs, d_fams=dfam,
        sid=P.sid if sid is None else sid, tid=(None if P.tv else P.tid) if tid is None else tid, D=P.D, M=P.M, starts_with_first=P.swf,
        ends_with_last=P.ewl, ends_in_last=P.eil, n_cores=n_cores,
        build_mat_idx=P.borrow, shared_pars=list(P.shared_pars), shared_m=(P.shared == "all"),
        T=P.T if P.fixed else None, pi=P.pi if P.fixed else None, Lrhoi=Lrhoi,
        scale=P.scale if P.hmp else None, event_template=P.template, hmp_fam=P.hmp_fam, tvdtpi=P.tv,
    )
    ys = [s["y"].reshape(-1, 1).copy() for s in P.slots]
    if P.case.get("ynone"):
        # what the model class does: repeated response vectors are passed as None
        for a in range(1, len(ys)):
            s = P.slots[a]
            if s["role"] in ("obs", "shared") and s["m"] == P.slots[0]["m"]:
                ys[a] = None
    Xs = [scp.sparse.csc_array(s["X"]) for s in P.slots]
    if P.borrow:
        Xs = [x if P.borrow[a] == a else None for a, x in enumerate(Xs)]
    return fam, flat_coef(P), split_idx(P), ys, Xs


def ar1_Lrhoi(P):
    """Block bidiagonal whitening matrix per series: row 0 of a series unweighted, later rows
    (y_t - rho y_{t-1})/sqrt(1-rho^2). Returned as R with R.T @ y = whitened y."""
    n = P.n
    A = np.zeros((n, n))
    c = 1 / np.sqrt(1 - P.rho ** 2)
    starts = set(P.sid.tolist())
    for t in range(n):
        if t in starts:
            A[t, t] = 1
        else:
            A[t, t] = c
            A[t, t - 1] = -P.rho * c
    return scp.sparse.csc_array(A.T)


# ----------------------------------------------------------------- reference probabilities
def series_probs(P, s):
    """(logb, logd, T, pi, extra) for series s.
    logb(j, t, k): log emission density of sample t being the k-th (0-based) sample of a visit in
    state j; prev: whether the visit is the first one of the series.
    logd[j', d-1, t]: log probability of a visit of duration d starting at t (families j or j+nS)."""
    nS, M, D = P.nS, P.M, P.D
    L = P.lens[s]
    rows = np.arange(P.sid[s], P.sid[s] + L)
    trows = rows if P.tv else np.array([s])
    Y = P.Y.copy()
    if P.rho is not None:
        Y = ar1_Lrhoi(P).T @ Y
    Ys = Y[rows]
    sh = {}
    par = {}
    dur = {}
    Tm = {}
    pim = {}
    for sl in P.slots:
        if sl["role"] == "shared":
            sh[(sl["m"], sl["par"])] = sl["X"][rows] @ sl["coef"]
    for sl in P.slots:
        if sl["role"] == "obs":
            eta = sl["X"][rows] @ sl["coef"]
            spar = 0 if P.obs == "mvn" else sl["par"]
            if spar in P.shared_pars:
                eta = eta + sh[(0 if P.shared == "all" else sl["m"], spar)]
            par[(sl["j"], sl["m"], sl["par"])] = link_inv(sl["link"], eta, B)
        elif sl["role"] == "dur":
            dur[(sl["j"], sl["par"])] = link_inv(sl["link"], sl["X"][trows] @ sl["coef"], B)
        elif sl["role"] == "T":
            Tm[(sl["j"], sl["par"])] = np.exp(sl["X"][trows] @ sl["coef"])
        elif sl["role"] == "pi":
            pim[sl["par"]] = float(np.exp(sl["X"][trows[0]] @ sl["coef"]))
    # durations
    nd = nS * (1 if P.swf else 2)
    nt = L if P.tv else 1
    logd = np.full((nd, D - 1, nt), -np.inf)
    ds = np.arange(1, D)
    for j in range(nd):
        if P.hmp and j % 2 == 1:
            logd[j, P.W - 1, :] = 0.0
            continue
        for t in range(nt):
            lp = fam_logpdf("gamma", ds, (dur[(j, 0)][t], dur[(j, 1)][t]))
            logd[j, :, t] = lp - scp.special.logsumexp(lp)
    # transitions
    if P.fixed:
        T = P.T[s] if P.fixed == "list" else P.T
        pi = P.pi[s] if P.fixed == "list" else P.pi
        T = np.asarray(T)
        if T.ndim == 2:
            T = T[:, :, None]
    else:
        T = np.zeros((nS, nS, nt))
        for j in range(nS):
            others = [i for i in range(nS) if i != j]
            for t in range(nt):
                w = np.array([1.0] + [Tm[(j, p)][t] for p in range(nS - 2)])
                T[j, others, t] = w / w.sum()
        w = np.array([1.0] + [pim[p] for p in range(nS - 1)])
        pi = w / w.sum()
    # emissions
    if P.hmp:
        c = 1.0 if P.rho is None else 1 / np.sqrt(1 - P.rho ** 2)
        r = 0.0 if P.rho is None else P.rho

        def ld(y, mean):
            if P.hmp_fam == "Gaussian":
                return -0.5 * np.log(2 * np.pi * P.scale) - 0.5 * (y - mean) ** 2 / P.scale
            return -np.log(P.scale) - (y - mean) ** 2 / P.scale

        def raw_mean(j, t, k, m):
            """un-whitened expected signal"""
            if j % 2 == 1 and k < P.W:
                return P.template[k] * par[(j, m, 0)][t]
            return 0.0

        def logb(j, t, k, prevj):
            out = 0.0
            for m in range(M):
                cur = raw_mean(j, t, k, m)
                if P.rho is None:
                    mean = cur
                else:
                    # previous sample's expected signal
                    if t == 0:
                        prev = 0.0
                        mean = c * cur  # first sample treated like later ones (previous mean 0)
                    else:
                        if k > 0:
                            prev = raw_mean(j, t - 1, k - 1, m)
                        elif prevj is not None and prevj % 2 == 1:
                            prev = raw_mean(prevj, t - 1, P.W - 1, m)
                        else:
                            prev = 0.0
                        mean = c * cur - r * c * prev
                out += ld(Ys[t, m], mean)
            return out
    elif P.obs == "mvn":
        tab = np.zeros((nS, L))
        for j in range(nS):
            R = np.zeros((M, M))
            i = 0
            for m in range(M):
                R[m, m:] = P.thetas[j][i:i + M - m]
                i += M - m
            ldt = np.trace(R)
            for m in range(M):
                R[m, m] = np.exp(R[m, m])
            mu = np.stack([par[(j, m, m)] for m in range(M)], axis=1)
            z = (Ys - mu) @ R.T
            tab[j] = ldt - 0.5 * (z ** 2).sum(axis=1)  # Gaussian constant omitted

        def logb(j, t, k, prevj):
            return tab[j, t]
    else:
        tab = np.zeros((nS, L))
        for j in range(nS):
            for m in range(M):
                kd = P.kinds[j][m]
                tab[j] += fam_logpdf(kd, Ys[:, m], [par[(j, m, p)] for p in range(npar(kd))])

        def logb(j, t, k, prevj):
            return tab[j, t]

    return logb, logd, T, pi, dict(par=par, Y=Ys)


def _ld(P, logd, j, first, d, t):
    jj = j if (first or P.swf) else j + P.nS
    return logd[jj, d - 1, t if P.tv else 0]


def _lT(P, T, i, j, t):
    # leaving state i after sample t (t = last sample of the visit)
    v = T[i, j, t] if P.tv else T[i, j, 0]
    return np.log(v) if v > 0 else -np.inf


def needs_prev(P):
    return P.hmp and P.rho is not None


def segment_llk(P, s, upto=None, free_end=False, best=False):
    """log-likelihood of series s by summing over segments (visits), state of the previous visit
    kept explicitly. upto: only the first `upto` samples, with a free end (for conditionals)."""
    logb, logd, T, pi, _ = series_probs(P, s)
    L = P.lens[s] if upto is None else upto
    ewl = P.ewl and not free_end
    eil = P.eil and not free_end
    nS, D = P.nS, P.D
    lse = np.max if best else scp.special.logsumexp
    add = np.maximum if best else np.logaddexp
    # A[e][j]: log weight of all visit sequences whose last visit is in j and ends after sample e-1
    A = np.full((L + 1, nS), -np.inf)
    fin = []
    with np.errstate(divide="ignore"):
        lpi = np.log(pi)
    # emission cumulative per (j, start, prevclass)
    for start in range(L):
        for j in range(nS):
            prevs = [None] if start == 0 else [i for i in range(nS) if i != j]
            groups = {}
            for i in prevs:
                if start == 0:
                    w = lpi[j]
                else:
                    w = A[start, i] + _lT(P, T, i, j, start - 1)
                key = i if needs_prev(P) else 0
                groups.setdefault(key, []).append(w)
            for key, ws in groups.items():
                w = lse(ws) if len(ws) > 1 else ws[0]
                if not np.isfinite(w):
                    continue
                pj = key if needs_prev(P) and start > 0 else None
                em = 0.0
                for d in range(1, D):
                    if start + d <= L:
                        em += logb(j, start + d - 1, d - 1, pj)
                        tot = w + _ld(P, logd, j, start == 0, d, start) + em
                        A[start + d, j] = add(A[start + d, j], tot)
                        if start + d == L and (not eil or j == nS - 1):
                            fin.append(tot)
                    elif not ewl:
                        # visit would continue beyond the data
                        emc = 0.0
                        for k in range(L - start):
                            emc += logb(j, start + k, k, pj)
                        if not eil or j == nS - 1:
                            fin.append(w + _ld(P, logd, j, start == 0, d, start) + emc)
    return lse(fin) if fin else -np.inf


class TooMany(Exception):
    pass


def paths(P, s, cap=60000):
    """Enumerate every admissible visit sequence: list of (logweight, ((j, start, d), ...)).
    None if there are more than `cap`."""
    logb, logd, T, pi, _ = series_probs(P, s)
    L = P.lens[s]
    out = []

    def rec(t, prev, lw, seq):
        if not np.isfinite(lw):
            return
        for j in range(P.nS):
            if prev is not None and j == prev:
                continue
            if t == 0:
                w0 = lw + (np.log(pi[j]) if pi[j] > 0 else -np.inf)
            else:
                w0 = lw + _lT(P, T, prev, j, t - 1)
            if not np.isfinite(w0):
                continue
            em = 0.0
            for d in range(1, P.D):
                if t + d <= L:
                    em += logb(j, t + d - 1, d - 1, prev)
                elif P.ewl:
                    break
                w = w0 + em + _ld(P, logd, j, t == 0, d, t)
                if t + d >= L:
                    if not P.eil or j == P.nS - 1:
                        if np.isfinite(w):
                            out.append((w, seq + ((j, t, d),)))
                            if len(out) > cap:
                                raise TooMany
                else:
                    rec(t + d, j, w, seq + ((j, t, d),))

    try:
        rec(0, None, 0.0, ())
    except TooMany:
        return None
    return out


def path_weight(P, s, states, excess):
    """log weight of the visit sequence given by a state sequence and the last visit's excess."""
    logb, logd, T, pi, _ = series_probs(P, s)
    L = P.lens[s]
    z = np.asarray(states).astype(int)
    if len(z) != L or z.min() < 0 or z.max() >= P.nS:
        return -np.inf
    cuts = [0] + [t for t in range(1, L) if z[t] != z[t - 1]] + [L]
    lw = 0.0
    prev = None
    with np.errstate(divide="ignore"):
        for a, b in zip(cuts[:-1], cuts[1:]):
            j = z[a]
            d = b - a
            if b == L:
                d += int(excess)
                if P.ewl and excess != 0:
                    return -np.inf
                if P.eil and j != P.nS - 1:
                    return -np.inf
            if d > P.D - 1 or excess < 0:
                return -np.inf
            lw += np.log(pi[j]) if a == 0 else _lT(P, T, prev, j, a - 1)
            lw += _ld(P, logd, j, a == 0, d, a)
            for t in range(a, b):
                lw += logb(j, t, t - a, prev)
            prev = j
    return lw


def states_of(seq, L):
    z = np.full(L, -1)
    for j, t, d in seq:
        z[t:t + d] = j
    return z


# ----------------------------------------------------------------- case generator
def random_case(rng, kind, **kw):
    """kind: 'std' (estimated or fixed T/pi), 'mvn', 'hmp'."""
    c = dict(kind=kind, seed=int(rng.integers(1 << 30)))
    if kind == "hmp":
        c["nS"] = int(rng.choice([3, 5])) if rng.random() < 0.8 else int(rng.choice([2, 4]))
        c["hmp"] = True
        c["obs"] = "hmp"
        c["W"] = int(rng.integers(2, 5))
        c["D"] = int(rng.integers(c["W"] + 1, c["W"] + 6))
        c["M"] = int(rng.integers(1, 4))
        c["swf"] = True
        c["fixed"] = str(rng.choice(["one", "list"]))
        c["lr"] = bool(rng.random() < 0.7)
        c["rho"] = float(rng.uniform(0.1, 0.8)) if rng.random() < 0.5 else None
        c["hmp_fam"] = "Gaussian" if (c["rho"] is not None or rng.random() < 0.7) else "Exponential"
        c["scale"] = float(rng.uniform(0.5, 2.0))
        c["tv"] = bool(rng.random() < 0.3)
        if c["tv"]:
            c["fixed"] = "list"
    else:
        c["nS"] = int(rng.integers(2, 5))
        c["D"] = int(rng.integers(2, 8))
        c["M"] = int(rng.integers(1, 4)) if kind == "std" else int(rng.integers(1, 4))
        c["obs"] = str(rng.choice(["gauss", "gamma", "mixed", "cat3"])) if kind == "std" else "mvn"
        c["swf"] = bool(rng.random() < 0.5)
        c["fixed"] = [None, None, "one", "list"][int(rng.integers(4))]
        c["tv"] = bool(rng.random() < 0.4)
        c["lr"] = bool(rng.random() < 0.3)
        if c["fixed"] == "one" and c["tv"]:
            c["fixed"] = "list"
    c["ewl"] = bool(rng.random() < 0.5)
    c["eil"] = bool(rng.random() < 0.5)
    if kind == "hmp" and c["lr"]:
        c["ewl"] = bool(rng.random() < 0.7)
        c["eil"] = bool(rng.random() < 0.7)
    ns = int(rng.integers(1, 4))
    mx = kw.get("maxlen", 14)
    c["lens"] = [int(rng.integers(1 if rng.random() < 0.3 else 2, mx)) for _ in range(ns)]
    if kind == "hmp":
        lo = (c["nS"] // 2) * c["W"] + (c["nS"] + 1) // 2
        c["lens"] = [int(rng.integers(lo, lo + 5)) for _ in range(ns)]
    c["shared"] = [None, None, "m", "all"][int(rng.integers(4))]
    c["borrow"] = bool(rng.random() < 0.3)
    c["ynone"] = bool(rng.random() < 0.3)
    c["shared2"] = bool(kind == "std" and rng.random() < 0.5)
    c["alt"] = bool(rng.random() < 0.2)
    return c


# ----------------------------------------------------------------- one-step-ahead quantities
def contexts(P, s, probs=None):
    """For every sample t: list of (weight, j, k, prevj), weight = P(sample t is the (k+1)-th sample
    of a visit in j preceded by a visit in prevj | samples before t), free end."""
    logb, logd, T, pi, _ = probs or series_probs(P, s)
    L, nS, D = P.lens[s], P.nS, P.D
    A = np.full((L + 1, nS), -np.inf)  # visits ending right before sample e
    ctx = [[] for _ in range(L)]
    with np.errstate(divide="ignore"):
        lpi = np.log(pi)
    for start in range(L):
        for j in range(nS):
            prevs = [None] if start == 0 else [i for i in range(nS) if i != j]
            groups = {}
            for i in prevs:
                w = lpi[j] if start == 0 else A[start, i] + _lT(P, T, i, j, start - 1)
                groups.setdefault(i if needs_prev(P) else None, []).append(w)
            for pj, ws in groups.items():
                w = scp.special.logsumexp(ws)
                if not np.isfinite(w):
                    continue
                lds = np.array([_ld(P, logd, j, start == 0, d, start) for d in range(1, D)])
                em = 0.0
                for k in range(0, min(D - 1, L - start)):
                    # visit lasts at least k+1 samples
                    ctx[start + k].append((w + scp.special.logsumexp(lds[k:]) + em, j, k, pj))
                    em += logb(j, start + k, k, pj)
                    A[start + k + 1, j] = np.logaddexp(A[start + k + 1, j], w + lds[k] + em)
    out = []
    past = 0.0
    for t in range(L):
        lw = np.array([c[0] for c in ctx[t]])
        tot = scp.special.logsumexp(lw) if len(lw) else -np.inf
        # None: no state can be occupied any more, or some admissible past has no continuation
        if not np.isfinite(tot) or abs(tot - past) > 1e-9:
            out.append(None)
        else:
            w = np.exp(lw - tot)
            out.append([(w[i],) + ctx[t][i][1:] for i in range(len(w))])
        if np.isfinite(tot):
            past = scp.special.logsumexp([c[0] + logb(c[1], t, c[2], c[3]) for c in ctx[t]])
    return out


def sample_cdf_mean(P, s, probs):
    """functions cdf(j,t,k,prevj,m), mean(j,t,k,prevj,m) of the (whitened) sample."""
    par, Ys = probs[4]["par"], probs[4]["Y"]
    M = P.M
    if P.hmp:
        c = 1.0 if P.rho is None else 1 / np.sqrt(1 - P.rho ** 2)
        r = 0.0 if P.rho is None else P.rho

        def raw(j, t, k, m):
            return P.template[k] * par[(j, m, 0)][t] if (j % 2 == 1 and k < P.W) else 0.0

        def mean(j, t, k, pj, m):
            cur = raw(j, t, k, m)
            if P.rho is None:
                return cur
            prev = 0.0
            if t > 0:
                if k > 0:
                    prev = raw(j, t - 1, k - 1, m)
                elif pj is not None and pj % 2 == 1:
                    prev = raw(pj, t - 1, P.W - 1, m)
            return c * cur - r * c * prev

        def cdf(j, t, k, pj, m):
            return st.norm.cdf((Ys[t, m] - mean(j, t, k, pj, m)) / np.sqrt(P.scale))
    elif P.obs == "mvn":
        zs = []
        for j in range(P.nS):
            R = np.zeros((M, M))
            i = 0
            for m in range(M):
                R[m, m:] = P.thetas[j][i:i + M - m]
                R[m, m] = np.exp(R[m, m])
                i += M - m
            mu = np.stack([par[(j, m, m)] for m in range(M)], axis=1)
            zs.append((Ys - mu) @ R.T)

        def mean(j, t, k, pj, m):
            return par[(j, m, m)][t]

        def cdf(j, t, k, pj, m):
            return st.norm.cdf(zs[j][t, m])
    else:
        def mean(j, t, k, pj, m):
            return par[(j, m, 0)][t]

        def cdf(j, t, k, pj, m):
            kd = P.kinds[j][m]
            return fam_cdf(kd, Ys[t, m], [par[(j, m, p)][t] for p in range(npar(kd))])
    return cdf, mean


def dur_pars(P, s):
    """{family index: [(mu, phi) rows]} of the duration distributions of series s."""
    rows = np.arange(P.sid[s], P.sid[s] + P.lens[s]) if P.tv else np.array([s])
    out = {}
    for sl in P.slots:
        if sl["role"] == "dur":
            out[(sl["j"], sl["par"])] = link_inv(sl["link"], sl["X"][rows] @ sl["coef"], B)
    return out
