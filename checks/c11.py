"""C11: Cholesky derivatives and updates, quasi-Newton compact forms, Davies' quadratic-form probabilities."""

from types import SimpleNamespace

import numpy as np
import scipy as scp
import scipy.stats as st

RULE = ("random matrices of 1..25 columns, update pairs of random (indefinite) quadratic models, random quadratic forms; non-trivial = library "
        "value compared with an explicit recursion, inverse, difference quotient or numerical inversion of the characteristic function")
ASSUMPTIONS = ["implicit forms are compared with dense matrices at 1e-6 relative to their norm",
               "columns treated by finite differences are given in increasing order", "quadratic-form probabilities are compared at 1e-4 when the requested accuracy is 2e-5"]
REQUIRED = ["dchol", "invdchol", "uchol", "V2", "omega", "hsr1", "hsr1_psd", "vsr1", "vsr1_psd", "implicit_form", "sh", "svps", "implicitV", "trVS",
            "davies", "davies_chi2", "davies_F", "davies_mixed"]


def cases(tier, seed):
    rng = np.random.default_rng([11, seed])
    n = 500 if tier == "quick" else 4000
    out = []
    for k in range(n):
        out.append(dict(kind="chol", seed=int(rng.integers(1 << 30)), n=int(rng.integers(1, 25))))
        out.append(dict(kind="sr1", seed=int(rng.integers(1 << 30)), n=int(rng.integers(2, 25)), m=int(rng.integers(1, 10)), indef=bool(k % 2)))
        out.append(dict(kind="sh", seed=int(rng.integers(1 << 30)), n=int(rng.integers(4, 20)), m=int(rng.integers(1, 6)), indef=bool(k % 2)))
        out.append(dict(kind="davies", seed=int(rng.integers(1 << 30)), mode=["chi2", "F", "mixed", "normal"][k % 4]))
    return out


def run_case(c, ctx):
    rng = np.random.default_rng(c["seed"])
    {"chol": chol, "sr1": sr1, "sh": sh, "davies": dav}[c["kind"]](c, ctx, rng)


def F(a):
    return np.asfortranarray(np.array(a, dtype=float))


def chol(c, ctx, rng):
    import dChol as d

    n = c["n"]
    X = rng.normal(size=(n + 3, n))
    H = X.T @ X + np.eye(n)
    E = rng.normal(size=(n, max(1, n - 1)))
    A = E @ E.T
    R = np.linalg.cholesky(H).T
    Ri = np.linalg.inv(R)
    # R' dR is fixed by d(R'R) = A with dR upper triangular
    M = Ri.T @ A @ Ri
    Phi = np.triu(M)
    Phi[np.diag_indices(n)] *= 0.5
    dR = Phi @ R
    got = np.asarray(d.dChol(F(R), F(A)))
    ctx.close("dchol", got, dR, rtol=1e-8, atol=1e-10, msg="derivative of the Cholesky factor")
    gi = np.asarray(d.invdChol(F(R), F(Ri), F(A)))
    ctx.close("invdchol", np.abs(gi), np.abs(Ri @ dR @ Ri), rtol=1e-7, atol=1e-9, msg="derivative of the inverse Cholesky factor (up to sign)")
    ctx.ok("invdchol", np.sum(gi * (Ri @ dR @ Ri)) ** 2 > 0.999 * np.sum(gi ** 2) * np.sum((Ri @ dR @ Ri) ** 2) - 1e-12, "direction of the derivative")
    for sig in (1.0, -1.0):
        U = rng.normal(size=(n, int(rng.integers(1, 4))))
        if sig < 0:
            U = U / np.sqrt(1.5 * np.linalg.norm(np.linalg.solve(np.linalg.cholesky(H), U), 2) ** 2)
        L = F(np.linalg.cholesky(H))
        L0 = L.copy()
        d.uChol(L, F(U), sig)
        L = np.tril(L)
        ctx.close("uchol", L @ L.T, H + sig * U @ U.T, rtol=1e-8, atol=1e-9, msg=f"rank update of the Cholesky factor, sign {sig}")
        ctx.ok("uchol", not np.allclose(L, np.tril(L0)), "factor unchanged")
    k = int(rng.integers(1, 4))
    ds = [np.triu(rng.normal(size=(n, n))) for _ in range(k)]
    V = rng.normal(size=(k, k))
    V = V @ V.T
    want = sum(V[a, b] * ds[a] @ ds[b].T for a in range(k) for b in range(k))
    ctx.close("V2", np.asarray(d.computeV2(F(V), [F(x) for x in ds], n)), want, rtol=1e-9, atol=1e-9, msg="second correction term")


def pairs(rng, n, m, indef):
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    ev = np.exp(rng.normal(size=n))
    if indef:
        ev[rng.random(n) < 0.3] *= -0.7
    H = Q * ev @ Q.T
    s = rng.normal(size=(m, n))
    y = s @ H + 0.02 * rng.normal(size=(m, n))
    return H, s, y


def sr1_rec(B, s, y):
    B = B.copy()
    for a, b in zip(s, y):
        r = b - B @ a
        den = r @ a
        if abs(den) < 1e-4 * np.linalg.norm(r) * np.linalg.norm(a):
            return None
        B = B + np.outer(r, r) / den
    return B


def clip(M, lo=0.0):
    w, U = np.linalg.eigh((M + M.T) / 2)
    return (U * np.maximum(w, lo)) @ U.T


def sr1(c, ctx, rng):
    from mssm.src.python import compact_rep as cr, gamm_solvers as gs

    n = c["n"]
    m = min(c["m"], n - 1)
    H, s, y = pairs(rng, n, m, c["indef"])
    rho = 1 / np.einsum("ij,ij->i", s, y)
    ctx.close("omega", cr.compute_omega(y, s), max_(y[-1] @ y[-1] / (y[-1] @ s[-1])), rtol=1e-12, atol=0, msg="scaling factor (last pair)")
    om = np.mean(np.sum(s * y, axis=1) / np.sum(s * s, axis=1))
    ctx.close("omega", cr.compute_omega(y, s, method="mean"), max_(om), rtol=1e-10, atol=0, msg="scaling factor (mean)")
    omega = float(np.exp(rng.normal() * 0.5))
    I = np.eye(n)
    for key, fn, a, b, w in (("hsr1", cr.computeHSR1, s, y, omega), ("vsr1", cr.computeVSR1, y, s, 1 / omega)):
        ref = sr1_rec(w * I, a, b)
        if ref is None or np.linalg.cond(ref) > 1e10:
            continue
        M0 = scp.sparse.csc_array(w * I)
        scl = np.linalg.norm(ref) + w
        ctx.close(key, np.asarray(fn(s, y, rho, M0, w, explicit=True)), ref, rtol=1e-6, atol=0, msg=f"{key}: compact form vs recursion", scale=scl)
        t1, t2, t3 = fn(s, y, rho, M0, w, explicit=False)
        ctx.close("implicit_form", w * I + t1 @ t2 @ t3, ref, rtol=1e-6, atol=0, msg=f"{key}: factors", scale=scl)
        ctx.close(key + "_psd", np.asarray(fn(s, y, rho, M0, w, make_psd=True, explicit=True)), clip(ref), rtol=1e-6, atol=0,
                  msg=f"{key}: nearest positive semi-definite form", scale=scl)
    # implicit inverse of the penalised approximation and traces with penalties
    from checks.c10 import lterm
    rep = int(rng.integers(1, 3))
    k = max(2, n // 3)
    t, De, tot = lterm(rng, k, rep, int(rng.integers(0, 4)), "x")
    _, s, y = pairs(rng, tot, min(m, tot - 1), c["indef"])
    if np.any(np.sum(s * y, axis=1) <= 1e-3):
        return
    lam = float(np.exp(rng.normal() * 2))
    S = scp.sparse.csc_array(lam * De @ De.T)
    for sample in (False, True):
        w = cr.compute_omega(y, s, method="mean" if sample else "NoWr")
        ref = sr1_rec(w * np.eye(tot), s, y)
        if ref is None:
            continue
        A = clip(ref) + S.toarray()
        if np.linalg.cond(A) > 1e7:
            continue
        V = np.linalg.inv(A)
        op = SimpleNamespace(sample_hessian=sample, fcols=None, sk=s, yk=y, rho=1 / np.sum(s * y, axis=1), n_corrs=len(s))
        V0, t1, t2, t3, *rest = gs.getImplicitV(op, tot, S, n_c=1)
        ctx.close("implicitV", V0.toarray() - t1 @ t2 @ t3, V, rtol=1e-5, atol=0, msg="implicit inverse", scale=np.linalg.norm(V) + np.linalg.norm(V0.toarray()))
        got = gs.computetrVS3(t1, t2, t3, *rest, t, V0)
        ctx.close("trVS", got, np.trace(V @ De @ De.T), rtol=1e-5, atol=1e-8, msg="trace with the penalty", scale=np.linalg.norm(V0.toarray()) * np.linalg.norm(De) ** 2)


def max_(o):
    return o if o >= 0 else 1


def sh(c, ctx, rng):
    from mssm.src.python import compact_rep as cr, gamm_solvers as gs

    n = c["n"]
    perm = rng.permutation(n)
    nF = int(rng.integers(1, n - 1))
    f, a = np.sort(perm[:nF]), np.sort(perm[nF:])
    nA = n - nF
    m = min(c["m"], nA - 1)
    if m < 1:
        ctx.skip("too small")
    X = rng.normal(size=(n + 3, n))
    Full = X.T @ X / n + 0.3 * np.eye(n)
    fd = np.zeros((n, n))
    fd[np.ix_(f, f)] = Full[np.ix_(f, f)]
    damp = float(rng.choice([0.0, 0.3, 1.0]))
    fd[np.ix_(f, a)] = damp * Full[np.ix_(f, a)]
    fd[np.ix_(a, f)] = damp * Full[np.ix_(a, f)]
    Ib = np.linalg.inv(Full[np.ix_(f, f)])
    _, sa, ya = pairs(rng, nA, m, c["indef"])
    if np.any(np.sum(sa * ya, axis=1) <= 1e-2):
        ctx.skip("pair without positive curvature")
    s, y = rng.normal(size=(m, n)), rng.normal(size=(m, n))
    s[:, a], y[:, a] = sa, ya
    smp = bool(rng.random() < 0.5)
    dB = float(rng.choice([0.5, 1.0]))
    w = dB * cr.compute_omega(ya, sa, method="mean" if smp else "NoWr")
    ref = sr1_rec(w * np.eye(nA), sa, ya)
    if ref is None:
        ctx.skip("recursion undefined")
    want = fd.copy()
    Bb = fd[np.ix_(f, a)]
    want[np.ix_(a, a)] += clip(ref) + Bb.T @ Ib @ Bb
    args = (y, s, scp.sparse.csc_array(fd), Ib, f, a, smp, damp <= 0, dB)
    scl = np.linalg.norm(want)
    ctx.close("sh", np.asarray(cr.computeSH(*args, explicit=True)), want, rtol=1e-6, atol=0, msg="structured approximation", scale=scl)
    parts = cr.computeSH(*args, explicit=False)
    nH1, a1, a2, a3, b1, b3, c1, c2, c3 = parts
    imp = nH1.toarray() + np.asarray(a1 @ a2 @ a3) + np.asarray((c1 @ c2) @ c3.toarray())
    if b1 is not None:
        imp = imp + (b1 @ b3).toarray()
    ctx.close("sh", imp, want, rtol=1e-6, atol=0, msg="structured approximation, factors", scale=scl)
    E = rng.normal(size=(n, n)) * (rng.random((n, n)) < 0.4)
    S = E @ E.T + 0.2 * np.eye(n)
    A = want + S
    if np.linalg.eigvalsh(A)[0] < 1e-3:
        ctx.skip("not safely positive definite")
    V = np.linalg.inv(A)
    for pc in (True, False):
        # the identity is applied in steps: all intermediate matrices have to be safely invertible
        st_ok = np.linalg.cond(nH1.toarray() + S) < 1e6 and np.linalg.cond(nH1.toarray() + S + np.asarray(a1 @ a2 @ a3)) < 1e6
        if b1 is not None:
            st_ok = st_ok and np.linalg.cond(nH1.toarray() + S + np.asarray(a1 @ a2 @ a3) + (b1 @ b3).toarray()) < 1e6
        if not st_ok:
            continue
        got = cr.computeSVPS(*parts, scp.sparse.csc_array(S), damp <= 0, explicit=True, pre_cond=pc, n_c=1)
        got = got.toarray() if hasattr(got, "toarray") else np.asarray(got)
        ctx.close("svps", got, V, rtol=1e-5, atol=0, msg="inverse of the penalised structured approximation", scale=np.linalg.norm(V))


def imhof(lb, n, nc, sig, x):
    """P(Q < x) by numerical inversion (Imhof 1961, with a normal component)."""
    def f(u):
        th = 0.5 * sum(k * np.arctan(l * u) + d * l * u / (1 + (l * u) ** 2) for l, k, d in zip(lb, n, nc)) - 0.5 * x * u
        lr = sum(0.25 * k * np.log1p((l * u) ** 2) + 0.5 * d * (l * u) ** 2 / (1 + (l * u) ** 2) for l, k, d in zip(lb, n, nc)) + (sig * u) ** 2 / 8
        return np.sin(th) / u * np.exp(-lr)
    sc = 1 / np.sqrt(sum(2 * (k + 2 * d) * l * l for l, k, d in zip(lb, n, nc)) + sig ** 2)
    tot, lo, hi = 0.0, 0.0, 0.25 * sc
    err = 0
    for _ in range(4000):
        v, e = scp.integrate.quad(f, max(lo, 1e-300), hi, limit=200)
        tot += v
        err += e
        lr = sum(0.25 * k * np.log1p((l * hi) ** 2) for l, k in zip(lb, n)) + (sig * hi) ** 2 / 8
        if lr > 16:
            return 0.5 - tot / np.pi, err
        lo, hi = hi, hi * 1.15 + 0.25 * sc
    return None, None


def dav(c, ctx, rng):
    import davies

    acc = float(rng.choice([2e-5, 1e-6]))
    if c["mode"] == "chi2":
        k = int(rng.integers(1, 40))
        l = float(np.exp(rng.normal()))
        x = l * st.chi2.rvs(k, random_state=int(rng.integers(1 << 30)))
        p, code, tr = davies.daviesQF(np.full(1, l), np.zeros(1), np.array([k]), x, 0, acc, 1, 20000)
        if code in (0, 2):
            ctx.close("davies_chi2", p, st.chi2.cdf(x / l, k), rtol=0, atol=max(5 * acc, 1e-5) if k > 1 else 1e-4, msg="scaled chi-square")
        return
    if c["mode"] == "F":
        k1, k2 = int(rng.integers(2, 12)), int(rng.integers(4, 80))
        q = float(st.f.rvs(k1, k2, random_state=int(rng.integers(1 << 30))))
        p, code, tr = davies.daviesQF(np.array([1.0 / k1, -q / k2]), np.zeros(2), np.array([k1, k2]), 0, 0, acc, 2, 20000)
        ctx.ok("davies_F", code in (0, 2), f"fault {code}")
        ctx.close("davies_F", p, st.f.cdf(q, k1, k2), rtol=0, atol=max(5 * acc, 1e-5), msg="ratio of chi-squares")
        return
    r = int(rng.integers(2, 7))
    lb = np.exp(rng.normal(size=r)) * (np.where(rng.random(r) < 0.3, -1, 1) if rng.random() < 0.5 else 1)
    n = rng.integers(1, 5, size=r)
    n[0] += 2
    nc = np.where(rng.random(r) < 0.3, rng.gamma(1, 1, size=r), 0.0)
    sig = float(rng.random()) if c["mode"] == "normal" else 0.0
    x = float(sum(l * st.ncx2.rvs(k, d, random_state=int(rng.integers(1 << 30))) if d > 0 else l * st.chi2.rvs(k, random_state=int(rng.integers(1 << 30)))
                  for l, k, d in zip(lb, n, nc)))
    want, err = imhof(lb, n, nc, sig, x)
    p, code, tr = davies.daviesQF(lb.astype(float), nc.astype(float), n.astype(np.int32), x, sig, acc, r, 20000)
    if want is None or err > 1e-5 or code not in (0, 2):
        return
    key = "davies_mixed" if c["mode"] == "mixed" else "davies"
    ctx.close(key, p, want, rtol=0, atol=1e-4, msg="probability of the quadratic form")
    ctx.ok(key, -1e-4 <= p <= 1 + 1e-4, "not a probability")
    bad = davies.daviesQF(lb.astype(float), nc.astype(float), np.full(r, -1, dtype=np.int32), x, sig, acc, r, 20000)
    ctx.ok(key, bad[1] == 3, f"negative degrees of freedom not reported (fault {bad[1]})")
    ctx.sample = {"p": float(p), "imhof": float(want)}
