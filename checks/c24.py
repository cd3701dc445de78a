"""Posterior sampling: the sampler's target is the stated posterior, its transitions leave that target invariant, its bookkeeping is faithful."""
import warnings

import numpy as np
import scipy.sparse as sp
import scipy.stats as st

from checks.c16 import loglik
from vlib import fit_ref as F
from vlib import gam_ref as G
from vlib import lss_ref as L
from vlib import unc_ref as U

RULE = ("native transitions on random targets and metrics (invariance tests from exact starts, leapfrog, doubling and dual averaging traces); sample_mssm for random fitted models of every class with fixed or sampled smoothing parameters, "
        "vague priors, offsets, ar1 residuals, missing responses, one or several chains, in one or several processes; non-trivial = log joint values, trajectories or moments were compared with an own computation")
ASSUMPTIONS = ["model matrix and penalties are the library's (judged separately)", "ar1 residual models of non-Gaussian responses and models with dropped coefficients are not judged",
               "distributional statements are tested at levels of about 1e-7"]
REQUIRED = {"joint": 60, "joint_rho": 25, "joint_scale": 20, "joint_theta": 4, "joint_lss": 10, "joint_offset": 4, "joint_ar": 2, "grad": 40, "pure": 40, "repeat": 8, "parallel": 4, "callback": 20, "auto": 2,
            "invariant": 24, "traj": 60, "member": 60, "llk": 60, "adapt": 30, "eps": 30, "native_repeat": 20, "mean": 40, "var": 40, "conv": 6, "const_eps": 20}
CASE_TIMEOUT = 500


def cases(tier, seed):
    rng = np.random.default_rng([24, seed])
    q = tier == "quick"
    out = []
    for k in range(32 if q else 300):
        out.append({"k": "inv", "seed": int(rng.integers(2**31)), "target": ["gauss", "skew", "mix", "t"][k % 4], "d": 1 + (k // 4) % 3, "n": 1200 if q else 5000})
    for k in range(40 if q else 500):
        out.append({"k": "trace", "seed": int(rng.integers(2**31)), "target": ["gauss", "skew", "mix", "t"][k % 4], "d": 1 + (k // 4) % 5})
    fams = ["gauss", "poisson", "gamma", "binom1", "gauss", "invgauss", "gausslog", "t", "binomn"]
    for k in range(72 if q else 800):
        c = {"k": "joint", "seed": int(rng.integers(2**31)), "fam": fams[k % 9], "n": 160, "rho": bool((k // 9) % 2), "proper": bool(rng.random() < 0.7), "n_chains": int(rng.choice([1, 2, 3])), "l0": float(rng.choice([1e-4, 0.05])),
             "prior": bool(rng.random() < 0.4), "unc": bool(rng.random() < 0.3), "lt": [None, "float", "list"][int(rng.integers(3))]}
        if k % 4 == 1:
            c["offset"] = str(rng.choice(["scalar", "array"]))
        if k % 9 == 4:
            c["ar"] = str(rng.choice(["one", "series"]))
        c["ids"] = bool(rng.random() < 0.2)
        out.append(c)
    for k in range(24 if q else 250):
        out.append({"k": "lss", "kind": ["gaum", "gammals", "mulnom", "cox", "g_gaum", "g_mulnom"][k % 6], "seed": int(rng.integers(2**31)), "n": 160, "rho": bool((k // 6) % 2), "proper": bool(rng.random() < 0.7),
                    "n_chains": int(rng.choice([1, 2])), "l0": float(rng.choice([1e-4, 0.05])), "prior": bool(rng.random() < 0.4), "unc": bool(rng.random() < 0.3)})
    for k in range(16 if q else 120):
        out.append({"k": "post", "seed": int(rng.integers(2**31)), "fam": ["gauss", "poisson", "gamma", "binom1", "gausslog", "gauss", "poisson", "invgauss"][k % 8], "n": 160, "offset": ["array", None, "scalar"][k % 3], "nona": True, "l0": 0.02,
                    **({"ar": "one", "fam": "gauss"} if k % 8 == 5 else {})})
    for k in range(8 if q else 60):
        out.append({"k": "par", "seed": int(rng.integers(2**31)), "fam": ["gauss", "poisson"][k % 2], "n": 120, "rho": bool(k // 2 % 2)})
    for k in range(4 if q else 30):
        out.append({"k": "auto", "seed": int(rng.integers(2**31)), "fam": ["gauss", "poisson"][k % 2], "n": 120})
    for k in range(6 if q else 60):
        out.append({"k": "conv", "seed": int(rng.integers(2**31)), "fam": ["gauss", "poisson"][k % 2], "n": 160})
    return out


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return f(*a, **k)


# ------------------------------------------------------------------ native transitions
class Target:
    def __init__(self, kind, d, rng):
        self.kind, self.d = kind, d
        A = rng.normal(0, 1, (d, d))
        self.A = np.linalg.cholesky(A @ A.T + 0.5 * np.eye(d)) * np.exp(rng.uniform(-0.7, 0.7))
        self.Ai = np.linalg.inv(self.A)
        self.m = rng.normal(0, 2, d)
        self.w, self.g = rng.uniform(0.3, 0.7), rng.uniform(1.5, 2.5)

    def z(self, x):
        return self.Ai @ (x - self.m)

    def uni(self, z):
        """log density and derivative of the standardised coordinates"""
        if self.kind == "gauss":
            return -0.5 * z**2, -z
        if self.kind == "t":
            return -3.0 * np.log1p(z**2 / 5), -6.0 * z / (5 + z**2)
        if self.kind == "skew":  # Gumbel
            return -z - np.exp(-z), -1 + np.exp(-z)
        a, b = np.log(self.w) - 0.5 * (z - self.g) ** 2, np.log(1 - self.w) - 0.5 * (z + self.g) ** 2
        l = np.logaddexp(a, b)
        return l, np.exp(a - l) * (self.g - z) + np.exp(b - l) * (-self.g - z)

    def lp(self, x):
        with np.errstate(all="ignore"):
            return float(self.uni(self.z(np.asarray(x, float).ravel()))[0].sum())

    def grad(self, x):
        with np.errstate(all="ignore"):
            return self.Ai.T @ self.uni(self.z(np.asarray(x, float).ravel()))[1]

    def draw(self, n, rng):
        s = (n, self.d)
        if self.kind == "gauss":
            z = rng.normal(size=s)
        elif self.kind == "t":
            z = rng.standard_t(5, s)
        elif self.kind == "skew":
            z = rng.gumbel(size=s)
        else:
            z = rng.normal(size=s) + np.where(rng.random(s) < self.w, self.g, -self.g)
        return z @ self.A.T + self.m

    def cdf(self, z):
        if self.kind == "gauss":
            return st.norm.cdf(z)
        if self.kind == "t":
            return st.t.cdf(z, 5)
        if self.kind == "skew":
            return st.gumbel_r.cdf(z)
        return self.w * st.norm.cdf(z - self.g) + (1 - self.w) * st.norm.cdf(z + self.g)


def metric(T, rng):
    d = T.d
    B = rng.normal(0, 1, (d, d))
    Minv = B @ B.T / d + 0.3 * np.eye(d)
    if rng.random() < 0.5:
        Minv = T.A @ T.A.T
    Lm = np.linalg.cholesky(np.linalg.inv(Minv))
    return Minv, Lm


def map_csc(M):
    from mssm.src.python.gamm_solvers import map_csc_to_eigen

    M = sp.csc_array(M)
    M.sort_indices()
    return map_csc_to_eigen(M)


def run_inv(c, ctx):
    import mcmc

    rng = np.random.default_rng(c["seed"])
    T = Target(c["target"], c["d"], rng)
    Minv, Lm = metric(T, rng)
    mp = map_csc(Minv)
    eps = float(rng.choice([0.4, 0.8, 1.2]))
    max_j = int(rng.choice([2, 4, 6]))
    X0 = T.draw(c["n"], rng)
    end = np.zeros_like(X0)
    steps = 2
    lp, gr = lambda x: T.lp(x), lambda x: T.grad(x).reshape(-1, 1)
    for i in range(c["n"]):
        g = np.random.default_rng([c["seed"] % 2**31, i])
        _, s, *_ = mcmc.advance_chain(int(g.integers(2**31)), 5, 0, steps, T.lp(X0[i]), X0[i].reshape(-1, 1), *mp, eps, eps, 0.0, 0.0, 0.6, 1.0, 0.05, 10, max_j, lp, gr, lambda sd: (Lm @ g.normal(size=(c["d"], 1))))
        end[i] = s[:, -1]
    ctx.ok("moved", np.mean(np.any(end != X0, axis=1)) > 0.3, f"chains do not move ({c['target']}, eps {eps})")
    Z = (end - T.m) @ T.Ai.T
    z0 = (X0 - T.m) @ T.Ai.T
    tag = f"({c['target']}, {c['d']} dimensions, step {eps}, at most {max_j} doublings)"
    for j in range(c["d"]):
        p = st.kstest(T.cdf(Z[:, j]), "uniform").pvalue
        ctx.ok("invariant", p > 1e-7, f"distribution of coordinate {j} not kept by the transition {tag}: p {p:.1e}")
        u = T.cdf(Z[:, j])
        q = st.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)) ** 2
        zz = (q.mean() - 1) / (np.sqrt(2) / np.sqrt(len(q)))
        ctx.ok("invariant_spread", abs(zz) < 6, f"spread of coordinate {j} not kept by the transition {tag}: z {zz:.1f}")
        # reversibility in distribution: (x0,x1) and (x1,x0) have one distribution
        if steps == 2:
            a, b = st.norm.ppf(np.clip(T.cdf(z0[:, j]), 1e-12, 1 - 1e-12)), st.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12))
            w = a**2 * b - a * b**2
            ctx.ok("reversible", abs(w.mean()) < 6.5 * w.std() / np.sqrt(len(w)) + 1e-12, f"transition not reversible {tag}")
    if c["d"] > 1:
        u = st.norm.ppf(np.clip(T.cdf(Z), 1e-12, 1 - 1e-12))
        r = (u[:, 0] * u[:, 1]).mean() * np.sqrt(len(u))
        ctx.ok("invariant", abs(r) < 6, f"dependence between coordinates not kept {tag}: z {r:.1f}")


def run_trace(c, ctx):
    import mcmc

    rng = np.random.default_rng(c["seed"])
    T = Target(c["target"], c["d"], rng)
    Minv, Lm = metric(T, rng)
    mp = map_csc(Minv)
    ev, rs = [], []

    def lp(x):
        x = np.array(x, float).ravel()
        ev.append(x)
        return T.lp(x)

    def gr(x):
        return T.grad(np.array(x, float)).reshape(-1, 1)

    g = np.random.default_rng([c["seed"], 9])

    def rsamp(sd):
        r = Lm @ g.normal(size=(c["d"], 1))
        rs.append((int(sd), r.ravel()))
        return r

    K = lambda r: 0.5 * r @ Minv @ r

    def leap(x, r, e):
        r = r + 0.5 * e * T.grad(x)
        x = x + e * (Minv @ r)
        return x, r + 0.5 * e * T.grad(x)

    # initial step size
    x = T.draw(1, rng)[0]
    for _ in range(3):
        ev.clear(), rs.clear()
        x = T.draw(1, rng)[0]
        e0 = mcmc.find_reasonable_epsilon(x.reshape(-1, 1), T.grad(x).reshape(-1, 1), *mp, T.lp(x), lp, gr, rsamp, int(rng.integers(10000)))
        if len(rs) != 1:
            ctx.skip("momentum drawn otherwise")
        H = lambda e: (lambda q: T.lp(q[0]) - K(q[1]))(leap(x, rs[0][1], e)) - (T.lp(x) - K(rs[0][1]))
        k = np.log2(e0 / 0.1)
        ctx.ok("eps", abs(k - round(k)) < 1e-9, f"initial step size {e0} is not 0.1 times a power of two")
        h1, lg = H(0.1), np.log(0.5)
        up = h1 > lg
        ctx.ok("eps", (H(e0) <= lg + 1e-9) if up else (H(e0) >= lg - 1e-9), f"initial step size {e0}: acceptance has not crossed one half")
        if abs(k) > 0.5:
            ctx.ok("eps", (H(e0 / 2) > lg - 1e-9) if up else (H(e0 * 2) < lg + 1e-9), f"initial step size {e0}: acceptance crossed one half earlier")
        ctx.ok("eps", (k > 0.5) if up else (k <= 0.5), f"initial step size {e0} changed in the wrong direction")
    # transitions
    eps, eb, Hb = float(np.exp(rng.uniform(-1.5, 0.3))), 1.0, 0.0
    mu, delta, kappa, gamma, t0 = float(np.log(10 * eps)), float(rng.uniform(0.5, 0.9)), float(rng.choice([1.0, 0.75])), 0.05, 10
    max_j = int(rng.choice([1, 3, 5]))
    Mad = 12
    cl = T.lp(x)
    for m in range(16):
        ev.clear(), rs.clear()
        sd = int(rng.integers(10000))
        e_used = eps
        gs = g.bit_generator.state
        args = (sd, m, Mad, 1, cl, x.reshape(-1, 1).copy(), *mp, eps, eb, Hb, mu, delta, kappa, gamma, t0, max_j, lp, gr, rsamp)
        ll, s, eps2, eb2, Hb2 = mcmc.advance_chain(*args)
        new, ll = np.array(s)[:, 0], float(np.ravel(ll)[0])
        ctx.close("llk", ll, T.lp(new), rtol=1e-12, atol=1e-12, msg="reported log joint of the new state")
        E = [q.copy() for q in ev]
        ctx.ok("member", any(np.array_equal(new, q) for q in [x] + E), "new state was never evaluated")
        ctx.ok("budget", len(E) <= 2**max_j - 1 and len(rs) == 1, f"{len(E)} evaluations, {len(rs)} momenta for at most {max_j} doublings")
        if len(rs) != 1:
            ctx.skip("momentum drawn otherwise")
        r0 = rs[0][1]
        # the evaluated points are consecutive points of one trajectory
        pos, neg = (x, r0), (x, r0)
        idx, mom, okt = [], [], True
        fw, bw = 0, 0
        for q in E:
            a, b = leap(*pos, e_used), leap(*neg, -e_used)
            da, db = np.abs(a[0] - q).max(), np.abs(b[0] - q).max()
            tol = 1e-9 * (1 + np.abs(q).max())
            if min(da, db) > tol or not np.isfinite(min(da, db)):
                okt = False
                break
            if da <= db:
                pos, fw = a, fw + 1
                idx.append(fw), mom.append(a[1])
            else:
                neg, bw = b, bw + 1
                idx.append(-bw), mom.append(b[1])
        if not np.all(np.isfinite(np.array(E))) or np.abs(np.array(E)).max() > 1e6:
            ctx.seen("wild")
        else:
            ctx.ok("traj", okt, f"evaluated point is not the next leapfrog step of either end of the trajectory (step {e_used})")
        if not okt:
            x, cl, eps, eb, Hb = new, ll, eps2, eb2, Hb2
            continue
        H0 = cl - K(r0)
        acc = [min(1.0, np.exp(min(0.0, T.lp(q) - K(p) - H0))) for q, p in zip(E, mom)]
        # doublings: runs of one direction of sizes 1,2,4,...; the last may be cut short
        last, j, i0 = [], 0, 0
        full = []
        while i0 < len(E):
            blk = list(range(i0, min(len(E), i0 + 2**j)))
            sg = {np.sign(idx[b]) for b in blk}
            ctx.ok("double", len(sg) == 1, "one doubling goes in both directions")
            last = blk
            full.append(blk)
            i0 += 2**j
            j += 1
        # no doubling after the ends of the whole trajectory turn back (generalised criterion)
        for jj in range(len(full) - 1):
            n = full[jj][-1] + 1
            pts = sorted([(0, r0)] + [(idx[b], mom[b]) for b in range(n)], key=lambda q: q[0])
            tot = np.sum([p for _, p in pts], axis=0)
            a_, b_ = pts[0][1] @ Minv @ tot, pts[-1][1] @ Minv @ tot
            ctx.ok("uturn", a_ > -1e-9 * (1 + abs(a_)) and b_ > -1e-9 * (1 + abs(b_)), "trajectory doubled although its ends turn back")
        if len(full) < max_j:
            # stopped: some subtree or the whole turned back, or the energy error is large
            def turned(lo, hi):
                pts = [None] * (hi - lo + 1)
                for q, p in [(0, r0)] + list(zip(idx, mom)):
                    if lo <= q <= hi:
                        pts[q - lo] = p
                return pts

            def crit(ps):
                n = len(ps)
                if n < 2:
                    return True
                h = n // 2
                for seg in (ps, ps[:h + 1], ps[h - 1:] if h - 1 >= 0 else ps):
                    t = np.sum(seg, axis=0)
                    if seg[0] @ Minv @ t <= 1e-9 or seg[-1] @ Minv @ t <= 1e-9:
                        return False
                return crit(ps[:h]) and crit(ps[h:])

            lo, hi = min([0] + idx), max([0] + idx)
            size = hi - lo + 1
            big = any(T.lp(q) - K(p) < H0 - 900 for q, p in zip(E, mom))
            cut = size & (size - 1) != 0
            if not big and not cut:
                ctx.ok("stop", not crit(turned(lo, hi)), "trajectory stopped although no part of it turned back")
        m1 = m + 1
        if m1 < Mad:
            al = float(np.mean([acc[b] for b in last]))
            hb = (1 - 1 / (m1 + t0)) * Hb + (delta - al) / (m1 + t0)
            le = mu - np.sqrt(m1) / gamma * hb
            w = m1**-kappa
            ctx.close("adapt", [Hb2, np.log(eps2), np.log(eb2)], [hb, le, w * le + (1 - w) * np.log(eb)], rtol=1e-7, atol=1e-7, msg=f"dual averaging of the step size (iteration {m1})")
        else:
            ctx.ok("adapt_off", eps2 == eb and eb2 == eb and Hb2 == Hb, "step size still adapted after the adaptation phase")
        if m % 4 == 0:
            after = g.bit_generator.state
            g.bit_generator.state = gs
            again = mcmc.advance_chain(*args)
            ctx.ok("native_repeat", np.array_equal(again[1], s) and again[2] == eps2, "same seed, different transition")
            g.bit_generator.state = after
        x, cl, eps, eb, Hb = new, ll, float(np.clip(eps2, 1e-3, 3)), eb2, Hb2


# ------------------------------------------------------------------ sample_mssm
class Hook:
    """records the functions and step sizes handed to the native sampler."""

    def __enter__(self):
        import mssm.src.python.mcmc as M

        self.f, self.eps = None, []
        self.M, self.old = M, getattr(M, "mcmc", None)
        me = self

        class Proxy:
            def __getattr__(self, a):
                fn = getattr(me.old, a)
                if a != "advance_chain":
                    return fn

                def wrap(*args):
                    fs = [q for q in args if callable(q)]
                    if len(fs) == 3:
                        me.f = fs[:2]
                    if len(args) == 24:
                        me.eps.append((args[1], args[2], args[12]))
                    return fn(*args)
                return wrap

        if self.old is not None:
            M.mcmc = Proxy()
        return self

    def __exit__(self, *a):
        if self.old is not None:
            self.M.mcmc = self.old


def prior_obj(seed):
    from mssm.src.python.utils import RhoPrior

    rng = np.random.default_rng(seed)
    mu, sd = rng.normal(0, 1), rng.uniform(1.0, 3)

    class NormalPrior(RhoPrior):
        def __init__(self):
            super().__init__()

        def logpdf(self, rho):
            return st.norm.logpdf(rho, mu, sd).sum(axis=1)

        def make_valid(self, rho):
            return rho

        def dlpdrho(self, rho):
            return -(rho - mu) / sd**2

    return NormalPrior(), lambda r: st.norm.logpdf(r, mu, sd).sum()


def vague(specs, df, p, l0, lhs):
    """vague priors: ridge on un-penalised linear terms, null-space penalties of smooths."""
    from mssm.src.python.custom_types import PenType
    from mssm.models import build_penalties

    S = np.zeros((p, p))
    o = 0
    for s, lv in zip(specs, lhs):
        form = G.mk_formula(s, df, lhs_var=lv, find_nested=False)
        build_penalties(form)
        s2 = [{**t, "penalize_null": True} if t["k"] == "f" and not t.get("penalize_null") else t for t in s]
        f2 = G.mk_formula(s2, df, lhs_var=lv, find_nested=False)
        pens = build_penalties(f2)
        mine = {i for i, (a, b) in enumerate(zip(s, s2)) if a is not b}
        n = form.n_coef
        for pen in pens:
            if pen.type == PenType.NULL and pen.term in mine:
                S[o:o + n, o:o + n] += l0 * U.dense(pen.S_J_emb)[:n, :n]
        for t in form.get_linear_term_idx():
            for q in np.ravel(form.coef_idx_per_term[t]):
                S[o + int(q), o + int(q)] += l0
        o += n
    return S, o


def logdetp(pens, lams):
    B = sum(s / np.abs(s).max() for s in pens)
    e, Q = np.linalg.eigh(B)
    if np.any((e > 1e-12 * e.max()) & (e < 1e-7 * e.max())):
        return None
    Q = Q[:, e > 1e-9 * e.max()]
    M = Q.T @ sum(l * s for l, s in zip(lams, pens)) @ Q
    s = 1 / np.sqrt(np.diag(M))
    sg, ld = np.linalg.slogdet(M * s[:, None] * s[None, :])
    w = np.linalg.eigvalsh(M * s[:, None] * s[None, :])
    if w[0] < 1e-9 * w[-1]:
        return None
    return ld - 2 * np.log(s).sum()


class Joint:
    pass


def joint_gam(c, P, m):
    """own log joint of (coefficients, log scale / theta, log smoothing parameters) of a GAMM."""
    X = U.dense(m.get_mmat())
    o = F.off(P)
    J = Joint()
    n = X.shape[1]
    fam = P.fam
    J.p = n
    J.scale = fam in ("gauss", "gausslog", "gamma", "invgauss")
    J.theta = 2 if fam == "t" else 0
    J.extra = int(J.scale) + J.theta
    nb = None if P.nb is None else np.asarray(P.nb)[P.used].astype(float)
    if P.rho is not None:
        W = F.whiten(P)
        Xw, yw = W @ X, W @ (P.y - o)

    def llk(b, x):
        if P.rho is not None:
            return st.norm.logpdf(yw, Xw @ b, np.exp(x[0] / 2)).sum()
        eta = X @ b + o
        if fam == "t":
            return st.t.logpdf(P.y, np.exp(x[1]) + 3, loc=eta, scale=np.exp(x[0])).sum()
        if fam.startswith("binom"):
            nn = np.ones_like(P.y) if nb is None else nb
            return (nn * (P.y * eta - np.logaddexp(0, eta))).sum()
        return loglik(fam, P.y, F.lfi(fam, eta), np.exp(x[0]) if J.scale else 1.0, nb)

    J.llk = llk
    J.phi = float(m.scale) if J.scale else 1.0
    J.specs, J.lhs, J.df = [P.spec], ["y"], P.df
    return J


def joint_lss(c, P, m):
    J = Joint()
    X, bs, x = L.mats(P, m)
    J.p = sum(a.shape[1] for a in X)
    J.extra = len(x)
    J.scale, J.theta = False, 0
    links = m.family.links
    cut = np.cumsum([a.shape[1] for a in X])[:-1]

    def llk(b, x):
        if P.fam == "cox":
            return L.cox_parts(P, X[0], b)[0]
        return L.dens(P, [a @ q for a, q in zip(X, np.split(b, cut))], x, links).sum()

    J.llk = llk
    J.phi = 1.0
    J.specs, J.lhs, J.df = P.specs, P.lhs, P.df
    return J


def sampler(m, c, **kw):
    from mssm.src.python.mcmc import sample_mssm

    a = dict(n_iter=10, M_adapt=8, n_steps=4, max_j=3, max_j_adapt=3, n_chains=c.get("n_chains", 2), parallelize_chains=False, auto_converge=False, progress_bar=False, sample_rho=c.get("rho", False), lambda_0=c.get("l0", 1e-4), seed=3)
    a.update(kw)
    return quiet(sample_mssm, m, **a)


def snap(m):
    return [np.asarray(m.coef).copy(), [(t.lam, U.dense(t.S_J_emb).copy()) for t in m.overall_penalties], U.dense(m.hessian).copy(), float(m.edf), float(m.scale), U.dense(m.lvi).copy(), [len(f.terms) for f in m.formulas]]


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def setup(c, ctx):
    if c["k"] == "lss":
        fam = c["kind"].replace("g_", "")
        P = L.problem({"kind": c["kind"], "fam": fam, "seed": c["seed"], "n": c["n"], "gsmm": c["kind"].startswith("g_") or fam == "cox"})
        rng = np.random.default_rng([c["seed"], 4])
        sp_ = []
        for j in range(P.npar):
            s = ([] if fam == "cox" else [{"k": "i"}]) + ([{"k": "l", "v": ["z"]}] if rng.random() < 0.3 else []) + [{"k": "f", "v": [["x0", "x1", "x2"][j]], "nk": 6, **({"penalize_null": True} if rng.random() < 0.4 else {})}] * int(j == 0 or rng.random() < 0.5)
            sp_.append(s)
        P.specs = sp_
        m = L.fit(P)
    else:
        rng = np.random.default_rng([c["seed"], 4])
        spec = [{"k": "i"}] + ([{"k": "l", "v": ["z"]}] if rng.random() < 0.3 else [])
        ts = [{"k": "f", "v": ["x0"], "nk": 7}, {"k": "f", "v": ["x1"], "nk": 5, "penalize_null": True}, {"k": "f", "v": ["x2"], "nk": 5, "by": "fac", "id": 31}, {"k": "f", "v": ["x2", "x3"], "te": True, "nk": [4, 4]}, {"k": "fs", "v": ["x3"], "by": "grp", "nk": 5},
              {"k": "f", "v": ["x3"], "nk": 6, "rp": 1}, {"k": "f", "v": ["x3"], "nk": 6, "by": "fac"}]
        ch = [int(q) for q in rng.permutation(len(ts))[:int(rng.integers(1, 3))]]
        if c["k"] == "post":
            ch = [[0], [1], [5], [0, 1]][int(rng.integers(4))]
        used = set()
        for q in ch:
            if set(ts[q]["v"]) & used:
                continue
            used |= set(ts[q]["v"])
            spec.append(dict(ts[q]))
        if c.get("ids"):
            spec = [{"k": "i"}, {"k": "f", "v": ["x0"], "nk": 6, "id": 1}, {"k": "f", "v": ["x1"], "nk": 6, "id": 1}]
        if rng.random() < 0.3 and c["k"] != "post":
            spec.append({"k": "ri", "v": ["grp"]})
        P = F.problem({**c, "spec": spec})
        m = F.fit(P)
    if m.info.code != 0 or m.info.dropped is not None:
        ctx.skip("not converged or dropped")
    if not m.overall_penalties:
        ctx.skip("no penalty")
    return P, m, (joint_lss if c["k"] == "lss" else joint_gam)(c, P, m)


def run_joint(c, ctx):
    P, m, J = setup(c, ctx)
    tag = f"{c.get('kind', c.get('fam'))}, rho {c['rho']}, proper {c['proper']}, offset {c.get('offset')}, ar {c.get('ar')}"
    p, nx = J.p, J.extra
    pens = [U.dense(t.S_J_emb) for t in m.overall_penalties]
    q = pens[0].shape[0]
    if J.theta and m.family.theta is not None and not np.all(np.abs(np.ravel(m.family.theta)) < 8):
        ctx.skip("extreme degrees of freedom")
    kw = {}
    lt = c["l0"]
    if nx and c.get("lt") == "float":
        kw["phi_theta_lambda_0"] = lt = 0.3
    if nx and c.get("lt") == "list" and (J.scale or J.theta):
        lt = [0.3, 0.6][:nx]
        kw["phi_theta_lambda_0"] = list(lt)
    if c["k"] == "lss":
        lt = c["l0"]
        kw.pop("phi_theta_lambda_0", None)
    pri = None
    if c["rho"] and c["prior"]:
        kw["rho_prior"], pri = prior_obj(c["seed"])
    before = snap(m)
    got = []
    with Hook() as hk:
        r = sampler(m, c, make_proper=c["proper"], init_unconditional=c["unc"], callback=lambda i, s: got.append((i, s)), **kw)
    ctx.ok("pure", same(before, snap(m)), f"sampling changes the fitted model ({tag})")
    nc = c["n_chains"]
    k = len(pens)
    ctx.ok("shape", r.coefs.shape == (nc, 10, len(m.coef)) and r.lps.shape == (nc, 10, 1) and (r.rhos is None) == (not c["rho"]) and (r.lscales is not None) == J.scale and (r.thetas is not None) == bool(J.theta), f"shapes of the samples ({tag})")
    if c["rho"]:
        ctx.ok("shape", r.rhos.shape == (nc, 10, k), "shape of the sampled log smoothing parameters")
    Sf = np.zeros((p + nx, p + nx))
    if c["proper"]:
        V, o = vague(J.specs, J.df, p, c["l0"], J.lhs)
        Sf[:p, :p] = V
        for e in range(nx):
            Sf[p + e, p + e] = lt[e] if isinstance(lt, list) else lt
    lam = [t.lam / J.phi for t in m.overall_penalties]
    D, own = [], []
    hs = []
    for ch in range(nc):
        for i in range(10):
            b = r.coefs[ch, i]
            x = b[p:] if len(b) > p else (r.lscales[ch, i] if J.scale else (r.thetas[ch, i] if J.theta else np.zeros(0)))
            b = b[:p]
            z = np.concatenate([b, x])
            with np.errstate(all="ignore"):
                v = J.llk(b, x)
            ls = np.exp(r.rhos[ch, i]) if c["rho"] else lam
            zz = z if q == p + nx else b
            v -= 0.5 * sum(l * zz @ s @ zz for l, s in zip(ls, pens)) + 0.5 * z @ Sf @ z
            if c["rho"]:
                ld = logdetp(pens, ls)
                if ld is None:
                    ctx.skip("penalty determinant unclear")
                v += 0.5 * ld + (pri(r.rhos[ch, i]) if pri else 0)
            own.append(v)
            D.append(r.lps[ch, i, 0] - v)
            hs.append(np.concatenate([z, r.rhos[ch, i]]) if c["rho"] else z)
    D, own = np.array(D), np.array(own)
    if not np.all(np.isfinite(own)):
        ctx.skip("log joint not finite")
    key = "joint_rho" if c["rho"] else "joint"
    ctx.close(key, D - D[0], np.zeros(len(D)), rtol=0, atol=1e-6 * (1 + np.abs(own).max() + np.abs(own).max() * 1e-2), msg=f"log joint of the samples differs from the stated posterior by more than a constant ({tag}, {[t.get('v') for s in J.specs for t in s]})")
    if key != "joint":
        ctx.seen("joint")
    if c["k"] == "lss":
        ctx.seen("joint_lss")
    if J.scale:
        ctx.seen("joint_scale")
    if J.theta:
        ctx.seen("joint_theta")
    if c.get("offset"):
        ctx.seen("joint_offset")
    if c.get("ar"):
        ctx.seen("joint_ar")
    # gradient handed to the sampler
    if hk.f is not None:
        llk, grd = hk.f
        rng = np.random.default_rng(c["seed"])
        for t in range(2):
            h = hs[int(rng.integers(len(hs)))].reshape(-1, 1)
            gr = np.asarray(quiet(grd, h.copy())).ravel()
            sd = np.ones(len(h))
            dg = np.maximum(np.abs(np.diag(U.dense(m.hessian)))[:len(h)], 1e-3)
            sd[:len(dg)] = 1 / np.sqrt(dg)
            u = rng.normal(size=len(h)) * sd
            e = 1e-3
            fd = L.d5(lambda s: float(quiet(llk, h + s * u.reshape(-1, 1))), e)
            sc = np.abs(gr * u).sum() + 1e-9 * abs(own).max() / e
            if np.isfinite(fd):
                ctx.close("grad", float(gr @ u), fd, rtol=0, atol=2e-5 * sc + 1e-6, msg=f"gradient handed to the sampler ({tag})")
        ee = [e for it, ma, e in hk.eps if it >= ma]
        ctx.ok("const_eps", len(set(np.round(ee, 14))) == 1 and ee[0] > 0, f"step size differs between chains or iterations after the adaptation: {sorted(set(ee))[:4]}")
    # callbacks
    ctx.ok("callback", [i for i, _ in got] == [4, 8, 10], f"callbacks at {[i for i, _ in got]}")
    for i, s in got:
        ctx.ok("callback_data", np.array_equal(s.coefs, r.coefs[:, :i]) and np.array_equal(s.lps, r.lps[:, :i]) and (s.rhos is None or np.array_equal(s.rhos, r.rhos[:, :i])) and (s.lscales is None or np.array_equal(s.lscales, r.lscales[:, :i])), "callback data are not the samples so far")
    if c["seed"] % 5 == 0:
        r2 = sampler(m, c, make_proper=c["proper"], init_unconditional=c["unc"], **kw)
        ctx.ok("repeat", np.array_equal(r.coefs, r2.coefs) and np.array_equal(r.lps, r2.lps), f"same seed, different samples ({tag})")
        r3 = sampler(m, c, make_proper=c["proper"], init_unconditional=c["unc"], **{**kw, "seed": 4})
        ctx.ok("reseed", not np.array_equal(r.coefs, r3.coefs), "another seed, same samples")
    if nc > 1:
        ctx.ok("chains", not np.array_equal(r.coefs[0], r.coefs[1]), "two chains are identical")


def run_post(c, ctx):
    import arviz

    P, m, J = setup(c, ctx)
    p, nx = J.p, J.extra
    S = np.zeros((p + nx, p + nx))
    V, _ = vague(J.specs, J.df, p, c["l0"], J.lhs)
    S[:p, :p] = V + sum(t.lam / J.phi * U.dense(t.S_J_emb)[:p, :p] for t in m.overall_penalties)
    lt = 0.2
    for e in range(nx):
        S[p + e, p + e] = lt
    H = -U.dense(m.hessian)

    def lj(z):
        return J.llk(z[:p], z[p:]) - 0.5 * z @ S @ z

    # independent samples: importance sampling around the mode of the own log joint
    from scipy.optimize import minimize

    z0 = np.concatenate([np.ravel(m.coef), [np.log(m.scale)] * nx])
    A0 = np.zeros((p + nx, p + nx))
    A0[:p, :p] = H[:p, :p]
    A0 += S
    for e in range(nx):
        A0[p + e, p + e] += len(P.y) / 2
    Lc = np.linalg.inv(np.linalg.cholesky(A0)).T
    with np.errstate(all="ignore"):
        o = minimize(lambda u: -lj(z0 + Lc @ u), np.zeros(p + nx), method="BFGS")
        mode = z0 + Lc @ o.x
        C = Lc @ o.hess_inv @ Lc.T * 1.15
    rng = np.random.default_rng(c["seed"])
    N, df = 20000, 12
    if not np.all(np.isfinite(C)) or np.linalg.eigvalsh((C + C.T) / 2)[0] <= 0:
        ctx.skip("mode not found")
    Lz = np.linalg.cholesky((C + C.T) / 2)
    w0 = np.sqrt(df / rng.chisquare(df, N))
    Z = mode + (rng.normal(size=(N, p + nx)) @ Lz.T) * w0[:, None]
    with np.errstate(all="ignore"):
        lw = np.array([lj(z) for z in Z])
    Q = np.linalg.solve(Lz, (Z - mode).T)
    lw = lw + 0.5 * (df + p + nx) * np.log1p((Q**2).sum(0) / df)
    lw[~np.isfinite(lw)] = -np.inf
    w = np.exp(lw - lw.max())
    w /= w.sum()
    ess = 1 / (w**2).sum()
    if ess < 0.15 * N:
        ctx.skip("importance weights uneven")
    mean = w @ Z
    var = w @ (Z - mean) ** 2
    r = sampler(m, c, n_iter=450, M_adapt=150, n_steps=50, max_j=7, max_j_adapt=6, n_chains=3, phi_theta_lambda_0=lt)
    B = r.coefs if not nx else np.concatenate([r.coefs, r.lscales], axis=2)
    tag = f"{c['fam']}, offset {c.get('offset')}, ar {c.get('ar')}"
    for j in range(p + nx):
        x = B[:, :, j]
        eb = float(arviz.ess(arviz.convert_to_dataset(x)).x)
        ev = float(arviz.ess(arviz.convert_to_dataset((x - x.mean()) ** 2)).x)
        if not eb > 60 or not ev > 40:
            ctx.seen("slow")
            continue
        zm = (x.mean() - mean[j]) / np.sqrt(var[j] * (1 / eb + 1 / ess))
        zv = np.log(x.var() / var[j]) / np.sqrt(2 / ev + 2 / ess) / 1.3
        ctx.ok("mean", abs(zm) < 6, f"posterior mean of coefficient {j} ({tag}): z {zm:.1f} from independent samples")
        ctx.ok("var", abs(zv) < 6, f"posterior variance of coefficient {j} ({tag}): {x.var():.4g} instead of {var[j]:.4g} (z {zv:.1f})")


def run_par(c, ctx):
    P, m, J = setup(c, ctx)
    a = sampler(m, {**c, "n_chains": 3})
    b = sampler(m, {**c, "n_chains": 3}, parallelize_chains=True)
    ctx.ok("parallel", all((x is None and y is None) or np.array_equal(x, y) for x, y in zip((a.lps, a.coefs, a.lscales, a.thetas, a.rhos), (b.lps, b.coefs, b.lscales, b.thetas, b.rhos))), f"samples depend on whether chains run in parallel ({c['fam']}, rho {c['rho']})")


def run_auto(c, ctx):
    import arviz

    P, m, J = setup(c, ctx)
    got = []
    kw = dict(n_iter=2000, M_adapt=100, n_steps=40, max_j=6, max_j_adapt=6, n_chains=2, auto_converge=True, min_iter=60, max_rhat=1.1, min_ess=10)
    r = sampler(m, c, **kw, callback=lambda i, s: got.append((i, s)))
    n = r.coefs.shape[1]
    if n == 2000:
        ctx.skip("not converged")
    full = sampler(m, c, **{**kw, "auto_converge": False, "n_iter": 2 * n})
    ctx.ok("auto", np.array_equal(full.coefs[:, n:2 * n], r.coefs) and np.array_equal(full.lps[:, n:2 * n], r.lps) and (r.lscales is None or np.array_equal(full.lscales[:, n:2 * n], r.lscales)), f"automatic convergence returns something else than the second half of the samples ({n})")
    ctx.ok("auto_min", n >= 60, f"stopped after {n} iterations")
    x = arviz.convert_to_dataset(np.concatenate([np.stack([q[: n // 2], q[n // 2:2 * (n // 2)]]) for q in r.coefs]))
    ctx.ok("auto", float(np.max(arviz.rhat(x).x)) < 1.1 and float(np.min(arviz.ess(x, method="tail").x)) > 20, "automatic convergence although Rhat or ESS of the returned samples miss their bounds")
    ctx.ok("auto", [i for i, _ in got] == [40 * (k + 1) for k in range(len(got))], "callbacks")


def run_conv(c, ctx):
    import arviz
    from mssm.src.python.mcmc import check_convergence

    rng = np.random.default_rng(c["seed"])
    c = dict(c)
    P0 = F.problem({**c, "spec": [{"k": "i"}]})
    spec = [{"k": "i"}, {"k": "l", "v": ["z"]}, {"k": "f", "v": ["x0"], "nk": 6}] + ([{"k": "fs", "v": ["x1"], "by": "grp", "nk": 5}] if rng.random() < 0.6 else [{"k": "ri", "v": ["grp"]}])
    P0.df["z"] = P0.df["z"] - (2 * np.abs(P0.df["z"]).max() if rng.random() < 0.5 else 0)
    P0.spec = spec
    m = F.fit(P0)
    p = len(m.coef)
    n = 61
    cs = np.cumsum(rng.normal(size=(2, n, p)), axis=1) * rng.uniform(0, 0.3, p) + rng.normal(size=(2, n, p))
    ls, rh, lp = rng.normal(size=(2, n, 1)), rng.normal(size=(2, n, 2)), rng.normal(size=(2, n, 1))

    def own(a):
        h = (n // 2 * 2) // 2
        s = np.stack([q for ch in a for q in (ch[:h], ch[h:2 * h])])
        d = arviz.convert_to_dataset(s)
        return [np.ravel(arviz.ess(d, method="tail").x), np.ravel(arviz.rhat(d).x), np.ravel(arviz.mcse(d, method="mean").x)]

    O = [own(a) for a in (cs, ls, rh, lp)]
    fixed = np.arange(p)[: p - sum(np.size(m.formulas[0].coef_idx_per_term[t]) for t, q in enumerate(spec) if q["k"] in ("fs", "ri"))]
    for typ, sel in ((0, np.arange(p)), (1, fixed)):
        g = quiet(check_convergence, cs, ls, None, lp, rh, m, type=typ)
        for j, nm in enumerate(("ess", "rhat", "mcse")):
            w = np.concatenate([O[0][j][sel], O[1][j], O[2][j], O[3][j]])
            if ctx.ok("conv", len(g[j]) == len(w), f"{nm} of {len(g[j])} quantities, {len(w)} expected (type {typ})"):
                ctx.close("conv", g[j], w, rtol=1e-9, atol=1e-12, msg=f"{nm} per quantity (type {typ})")


def run_case(c, ctx):
    {"inv": run_inv, "trace": run_trace, "joint": run_joint, "lss": run_joint, "post": run_post, "par": run_par, "auto": run_auto, "conv": run_conv}[c["k"]](c, ctx)
