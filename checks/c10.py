"""C10: sparse factorisations and solves."""

import numpy as np
import scipy as scp

RULE = ("random sparse/dense/banded matrices of 1..60 columns (positive definite, indefinite, rank deficient, badly scaled) plus large "
        "ones that take the shared-memory parallel paths; non-trivial = factor or solution compared with the defining equation")
ASSUMPTIONS = ["equations are judged relative to the norms involved (1e-8, 1e-6 for badly scaled problems)"]
REQUIRED = ["chol", "cholP", "chol_indefinite", "qr", "qrr", "qr_rank", "dqrr", "symqr", "solve_qr", "solve_am", "solve_coef", "solve_coef_pqr",
            "solve_coefXX", "solve_L", "solve_LXX", "solve_tr", "backsolve_tr", "linv", "linv_parallel", "B", "B_drop", "B_null", "B_parallel",
            "cluster_B", "condition", "dependencies", "csr_map"]
CASE_TIMEOUT = 200


def cases(tier, seed):
    rng = np.random.default_rng([10, seed])
    n = 240 if tier == "quick" else 5000
    out = [dict(kind="small", seed=int(rng.integers(1 << 30)), n=int(rng.integers(1, 60)), shape=str(rng.choice(["sparse", "banded", "dense", "blocks"])),
                bad=bool(k % 5 == 4)) for k in range(n)]
    out += [dict(kind="B", seed=int(rng.integers(1 << 30)), n=int(rng.integers(3, 9)), rep=int(rng.integers(1, 7)), start=int(rng.integers(0, 6)),
                 mode=["plain", "drop", "null", "cluster"][k % 4]) for k in range(n // 2)]
    out += [dict(kind="bigL", seed=int(rng.integers(1 << 30)), n=int(rng.integers(4001, 4600)), nc=2 + k % 2) for k in range(2)]
    out += [dict(kind="bigB", seed=int(rng.integers(1 << 30)), rep=int(rng.integers(600, 700)), nc=2 + k % 2) for k in range(2)]
    out += [dict(kind="bigcluster", seed=int(rng.integers(1 << 30)), nc=2) for k in range(2)]
    out += [dict(kind="dep", seed=int(rng.integers(1 << 30)), n=int(rng.integers(20, 60)), k1=int(rng.integers(1, 6)), k2=int(rng.integers(1, 8)))
            for k in range(n // 6)]
    return out


def randmat(rng, r, c, shape, bad):
    if shape == "banded":
        A = np.zeros((r, c))
        for i in range(r):
            for j in range(c):
                if abs(i * c / r - j) < 3:
                    A[i, j] = rng.normal()
    elif shape == "dense":
        A = rng.normal(size=(r, c))
    elif shape == "blocks":
        A = np.zeros((r, c))
        k = max(1, c // 4)
        for b in range(0, c, k):
            rows = rng.choice(r, size=max(1, r // 2), replace=False)
            A[np.ix_(rows, range(b, min(c, b + k)))] = rng.normal(size=(len(rows), min(c, b + k) - b))
    else:
        A = scp.sparse.random(r, c, density=0.15, random_state=int(rng.integers(1 << 30)), data_rvs=lambda s: rng.normal(size=s)).toarray()
    if bad:
        A = A * np.exp(rng.normal(size=c) * 3)
    return A


def perm(Pr, n):
    P = np.zeros((n, n))
    P[np.asarray(Pr), np.arange(n)] = 1
    return P


def csc(A):
    M = scp.sparse.csc_array(A)
    M.sort_indices()
    return M


def run_case(c, ctx):
    from mssm.src.python import matrix_solvers as m

    rng = np.random.default_rng(c["seed"])
    {"small": small, "B": cB, "bigL": bigL, "bigB": bigB, "bigcluster": bigcluster, "dep": dep}[c["kind"]](c, ctx, m, rng)


def small(c, ctx, m, rng):
    n = c["n"]
    r = n + int(rng.integers(0, 2 * n + 1))
    X = randmat(rng, r, n, c["shape"], c["bad"])
    X[:n] += np.diag(np.exp(rng.normal(size=n) * 0.3)) * np.maximum(1e-3, np.abs(X).max(axis=0))
    E = randmat(rng, n, n, c["shape"], False) * float(np.exp(rng.normal()))
    S = E.T @ E
    y = rng.normal(size=r)
    A = X.T @ X + S
    A = (A + A.T) / 2
    cond = np.linalg.cond(A)
    if not np.isfinite(cond) or cond > 1e12:
        ctx.skip("too ill-conditioned to judge")
    Ai = np.linalg.inv(A)
    nA = np.linalg.norm(A)
    ttol = 1e-9 * np.sqrt(cond) + 1e-13 * cond
    L, code = m.cpp_chol(csc(A))
    L = L.toarray()
    ctx.ok("chol", code == 0 and np.allclose(L, np.tril(L)), "Cholesky factor not lower triangular or failure reported")
    ctx.close("chol", L @ L.T, A, rtol=1e-9, atol=0, msg="L L' = A", scale=nA)
    ctx.ok("chol", np.all(np.diag(L) > 0), "diagonal of the Cholesky factor")
    LP, Pr, code = m.cpp_cholP(csc(A))
    LPd = LP.toarray()
    P = perm(Pr, n)
    ctx.ok("cholP", code == 0 and np.allclose(LPd, np.tril(LPd)) and sorted(Pr) == list(range(n)), "pivoted Cholesky: triangle, permutation or code")
    ctx.close("cholP", P.T @ LPd @ LPd.T @ P, A, rtol=1e-9, atol=0, msg="P' L L' P = A", scale=nA)
    ctx.close("cholP", m.compute_eigen_perm(Pr).toarray(), P, rtol=0, atol=0, msg="permutation matrix")
    iscale = np.linalg.norm(Ai)
    Li = m.compute_Linv(LP, n_c=int(rng.integers(1, 4)))
    ctx.close("linv", (Li @ LP).toarray(), np.eye(n), rtol=0, atol=ttol, msg="inverse Cholesky factor")
    Lu = m.apply_eigen_perm(Pr, Li)
    ctx.close("linv", (Lu.T @ Lu).toarray(), Ai, rtol=ttol, atol=0, msg="inverse from un-pivoted factor", scale=iscale)
    # indefinite
    w = np.linalg.eigvalsh(A)
    for fn in (m.cpp_chol, m.cpp_cholP, m.cpp_solve_LXX):
        B = A - np.eye(n) * (w[0] + 0.3 * (w[-1] - w[0]) + 0.1 * w[-1])
        ctx.ok("chol_indefinite", fn(csc(B))[-1] != 0, f"{fn.__name__}: no failure reported for an indefinite matrix")
    # qr
    Q, R, Pq, code = m.cpp_qr(csc(X))
    Q, R = Q.toarray(), R.toarray()
    Pm = perm(Pq, n)
    ctx.ok("qr", code == 0 and np.allclose(R[:n], np.triu(R[:n])), "QR code or triangle")
    ctx.close("qr", Q[:, :n] @ R[:n], X @ Pm, rtol=1e-9, atol=0, msg="Q R = A P", scale=np.linalg.norm(X))
    ctx.close("qr", Q[:, :n].T @ Q[:, :n], np.eye(n), rtol=0, atol=1e-9, msg="orthogonality")
    # well-conditioned problem with a known rank
    k = int(rng.integers(1, n + 1))
    Z = randmat(rng, r, n, "dense" if rng.random() < 0.6 else c["shape"], False)
    if k < n:
        idx = rng.permutation(n)
        Z[:, idx[k:]] = Z[:, idx[:k]] @ rng.normal(size=(k, n - k)) * (rng.random((1, n - k)) > 0.2)
    sv = np.linalg.svd(Z, compute_uv=False)
    rk = int(np.sum(sv > sv[0] * 1e-10)) if sv[0] > 0 else 0
    if sv[0] > 0 and sv[rk - 1] > 1e-4 * sv[0]:
        Rz, Pz, rank, code = m.cpp_qrr(csc(Z))
        if ctx.ok("qr_rank", rank == rk and code == 0, f"rank {rank}, expected {rk}"):
            Zp = Z[:, np.asarray(Pz)[:rk]]
            ctx.ok("qr_rank", np.linalg.matrix_rank(Zp, tol=1e-7 * sv[0]) == rk, "leading pivoted columns are not independent")
            Rz = Rz.toarray()
            ctx.close("qrr", Rz.T @ Rz, Zp.T @ Zp, rtol=1e-8, atol=0, msg="R'R of the leading columns", scale=sv[0] ** 2)
        Pd, rd = m.cpp_dqrr(np.asfortranarray(Z))
        ctx.ok("dqrr", rd == rk, f"dense rank {rd}, expected {rk}")
        ctx.ok("dqrr", sorted(Pd) == list(range(n)) and np.linalg.matrix_rank(Z[:, np.asarray(Pd)[:rk]], tol=1e-8 * sv[0]) == rk,
               "dense: leading pivoted columns are not independent")
        Sy = Z.T @ Z
        Sy /= np.abs(Sy).max()
        ws = np.linalg.eigvalsh(Sy)
        if ws[n - rk] > 1e-6:
            Rs, P1, P2, rank, code = m.cpp_symqr(csc(Sy), 1e-9)
            if ctx.ok("symqr", code == 0 and rank == rk, f"symmetric QR: rank {rank}, expected {rk}"):
                cols = (Sy @ perm(P1, n) @ perm(P2, n))[:, :rk]
                Rs = Rs.toarray()
                ctx.close("symqr", Rs.T @ Rs, cols.T @ cols, rtol=1e-8, atol=0, msg="R'R of the leading columns", scale=np.linalg.norm(Sy) ** 2)
    if cond < 1e8:
        inv, rank, code = m.cpp_solve_qr(csc(A))
        ctx.ok("solve_qr", code == 0 and rank == n, "inverse via QR: code or rank")
        ctx.close("solve_qr", inv.toarray(), Ai, rtol=1e-12 * cond + 1e-9, atol=0, msg="inverse via QR", scale=iscale)
    # solvers
    b = Ai @ (X.T @ y)
    bs = np.linalg.norm(Ai) * np.linalg.norm(X.T @ y) + 1e-300
    for fn in ("am", "coef", "XX"):
        if fn == "am":
            F, Pr, coef, code = m.cpp_solve_am(y, csc(X), csc(S))
            Fi = F.toarray()
        elif fn == "coef":
            F, Pr, coef, code = m.cpp_solve_coef(y, csc(X), csc(S))
            Fi = np.linalg.inv(F.toarray())
        else:
            F, Pr, coef, code = m.cpp_solve_coefXX(X.T @ y, csc(A))
            Fi = np.linalg.inv(F.toarray())
        key = {"am": "solve_am", "coef": "solve_coef", "XX": "solve_coefXX"}[fn]
        ctx.ok(key, code == 0, "failure reported")
        ctx.close(key, np.ravel(coef), b, rtol=1e-13 * cond + 1e-10, atol=0, msg=f"{key}: coefficients", scale=bs)
        P = perm(Pr, n)
        ctx.close(key, P.T @ Fi.T @ Fi @ P, Ai, rtol=ttol, atol=0, msg=f"{key}: factor", scale=iscale)
    for key, got in (("solve_L", m.cpp_solve_L(csc(X), csc(S))), ("solve_LXX", m.cpp_solve_LXX(csc(A)))):
        F, Pr, code = got
        F, P = F.toarray(), perm(Pr, n)
        ctx.ok(key, code == 0, "failure reported")
        ctx.close(key, P.T @ F.T @ F @ P, Ai, rtol=ttol, atol=0, msg=f"{key}: inverse factor", scale=iscale)
    if c["bad"] is False:
        pqr(ctx, m, rng, X, E, y, "solve_coef_pqr")
        if k < n and r + n > n:
            pqr(ctx, m, rng, Z, np.zeros((n, n)), y, "solve_coef_pqr")
            D = np.zeros((n, n))
            D[:, 0] = 0
            pqr(ctx, m, rng, Z, np.diag((rng.random(n) < 0.5).astype(float)), y, "solve_coef_pqr")
    # triangular solves
    C = scp.sparse.random(n, int(rng.integers(1, 8)), density=0.6, random_state=int(rng.integers(1 << 30)), format="csc")
    C = scp.sparse.csc_array(C)
    B = m.cpp_solve_tr(csc(L), C).toarray()
    ctx.close("solve_tr", L @ B, C.toarray(), rtol=1e-9, atol=1e-12, msg="L B = C", scale=np.linalg.norm(L) * np.linalg.norm(B) + 1)
    B = m.cpp_backsolve_tr(csc(L.T), C).toarray()
    ctx.close("backsolve_tr", L.T @ B, C.toarray(), rtol=1e-9, atol=1e-12, msg="U B = C", scale=np.linalg.norm(L) * np.linalg.norm(B) + 1)
    # maps
    import eigen_solvers  # noqa
    rows, cols, nnz, d, ip, ix = m.map_csc_to_eigen(csc(X))
    ctx.ok("csr_map", (rows, cols) == X.shape and np.array_equal(scp.sparse.csc_array((d, ix, ip), shape=X.shape).toarray(), X), "csc map")
    R_ = scp.sparse.csr_array(X)
    R_.sort_indices()
    rows, cols, nnz, d, ip, ix = m.map_csr_to_eigen(R_)
    ctx.ok("csr_map", np.array_equal(scp.sparse.csr_array((d, ix, ip), shape=X.shape).toarray(), X), "csr map")
    for bad in (scp.sparse.csr_array(X), scp.sparse.coo_array(X)):
        try:
            m.map_csc_to_eigen(bad)
            ctx.ok("csr_map", False, "wrong storage format accepted")
        except (TypeError, AttributeError):
            ctx.ok("csr_map", True)
    d, rr, cc = m.translate_sparse(csc(X))
    ctx.ok("csr_map", np.array_equal(scp.sparse.coo_array((d, (rr, cc)), shape=X.shape).toarray(), X), "translated triplets")
    if n > 3:
        K, mx, mn, code = m.est_condition(LP, Li, verbose=False)
        s = np.linalg.svd(LPd, compute_uv=False)
        ctx.close("condition", np.array([K / (s[0] / s[-1]), mx / s[0], mn / s[-1]]), np.ones(3), rtol=1e-4, atol=0, msg="condition estimate")
        u = 0.5 * np.finfo(float).eps
        ctx.ok("condition", code == (2 if K > 1 / u else 1 if K > 1 / np.sqrt(u) else 0), f"condition code {code} for {K:.3g}")
    ctx.sample = {"n": n, "cond": float(cond)}


def pqr(ctx, m, rng, X, E, y, key):
    n = X.shape[1]
    A = X.T @ X + E.T @ E
    R, P1, P2, coef, rank, code = m.cpp_solve_coef_pqr(y, csc(X), csc(E))
    s = np.linalg.svd(np.concatenate([X, E]), compute_uv=False)
    if s[0] == 0:
        return
    rk = int(np.sum(s > s[0] * 1e-9))
    if s[rk - 1] < 1e-4 * s[0]:
        return
    if not ctx.ok(key, code == 0 and rank == rk, f"{key}: rank {rank}, expected {rk}"):
        return
    cols = np.argmax(perm(P1, n) @ perm(P2, n), axis=0)[:rk]
    full = np.zeros(n)
    full[cols] = np.ravel(coef)[:rk]
    g = X.T @ (y - X @ full) - E.T @ (E @ full)
    ctx.close(key, g, np.zeros(n), rtol=0, atol=1e-7 * (np.linalg.norm(X) * np.linalg.norm(y) + s[0] ** 2 * np.linalg.norm(full) + 1e-6),
              msg="normal equations of the penalised least squares problem")
    Rd = R.toarray()
    ctx.close(key, Rd.T @ Rd, A[np.ix_(cols, cols)], rtol=1e-8, atol=0, msg="R'R", scale=s[0] ** 2)


def lterm(rng, n, rep, start, mode):
    from mssm.src.python.custom_types import LambdaTerm, PenType

    tot = start + n * rep + int(rng.integers(0, 4))
    t = LambdaTerm()
    if mode == "null":
        S = np.zeros((n, n))
        S[-1, -1] = 1
        D = S.copy()
        t.type = PenType.NULL
    else:
        rk = n if mode == "plain" and rng.random() < 0.3 else n - int(rng.integers(1, min(3, n)))
        D = np.zeros((n, n))
        D[:, :rk] = rng.normal(size=(n, rk))
        S = D @ D.T
        t.type = PenType.DIFFERENCE
        t.rank = rk * rep
    De = np.zeros((tot, tot))
    for k in range(rep):
        sl = slice(start + k * n, start + (k + 1) * n)
        De[sl, sl] = D
    t.S_J, t.rep_sj, t.start_index = csc(S), rep, start
    t.D_J_emb, t.S_J_emb = csc(De), csc(De @ De.T)
    t.lam = 1.0
    return t, De, tot


def cB(c, ctx, m, rng):
    t, De, tot = lterm(rng, c["n"], c["rep"], c["start"], "null" if c["mode"] == "null" else "plain" if c["mode"] == "plain" else "x")
    X = rng.normal(size=(tot + 5, tot)) * (rng.random((tot + 5, tot)) < 0.4) + 0
    A = X.T @ X + np.eye(tot)
    drop = None
    keep = np.arange(tot)
    if c["mode"] == "drop":
        drop = np.sort(rng.choice(tot, size=int(rng.integers(1, 3)), replace=False))
        keep = np.setdiff1d(keep, drop)
    LP, Pr, _ = m.cpp_cholP(csc(A[np.ix_(keep, keep)]))
    P = m.compute_eigen_perm(Pr)
    Ai = np.linalg.inv(A[np.ix_(keep, keep)])
    if c["mode"] == "cluster":
        t.clust_series = [int(s) for s in rng.choice(c["rep"], size=int(rng.integers(1, c["rep"] + 1)), replace=False)]
        t.clust_weights = [rng.random(int(rng.integers(1, 5))) for _ in t.clust_series]
        lw, up = m.compute_B(LP, P, t, n_c=1)
        n, rk = c["n"], int(t.rank / t.rep_sj)
        elw = eup = 0
        for s, w in zip(t.clust_series, t.clust_weights):
            d = De[:, c["start"] + s * n: c["start"] + s * n + rk]
            q = np.trace(d.T @ Ai @ d)
            elw += np.sum(w) * q
            eup += len(w) * q
        ctx.close("cluster_B", [lw, up], [elw, eup], rtol=1e-8, atol=1e-10, msg="cluster approximations")
        return
    D = De[:, [j for j in range(tot)]][keep]
    if c["mode"] == "drop":
        D = D[:, keep]
    want = np.trace(D.T @ Ai @ D)
    got = m.compute_B(LP, P, t, n_c=int(rng.integers(1, 3)), drop=drop)
    key = {"plain": "B", "drop": "B_drop", "null": "B_null"}[c["mode"]]
    ctx.close(key, got, want, rtol=1e-8, atol=1e-10, msg=f"trace term ({c['mode']}, start {c['start']}, {c['rep']} repeats)")
    ctx.sample = {"B": float(got)}


def spd_big(rng, n):
    d = [2.5 + rng.random(n), rng.normal(size=n - 1) * 0.5, rng.normal(size=n - 7) * 0.3]
    M = scp.sparse.csc_array(scp.sparse.diags([d[0] + 2, d[1], d[1], d[2], d[2]], [0, 1, -1, 7, -7], format="csc"))
    M.sort_indices()
    return M


def bigL(c, ctx, m, rng):
    A = spd_big(rng, c["n"])
    LP, Pr, code = m.cpp_cholP(A)
    Li = m.compute_Linv(LP, n_c=c["nc"])
    ctx.ok("linv_parallel", code == 0 and Li.shape == LP.shape, "shape of the inverse factor")
    v = rng.normal(size=(c["n"], 3))
    ctx.close("linv_parallel", Li @ (LP @ v), v, rtol=0, atol=1e-9, msg="inverse factor computed in parallel")


def bigB(c, ctx, m, rng):
    t, De, tot = lterm_sparse(rng, 7, c["rep"], 3)
    A = spd_big(rng, tot)
    LP, Pr, _ = m.cpp_cholP(A)
    P = m.compute_eigen_perm(Pr)
    want = float(np.sum(scp.sparse.linalg.spsolve(A, t.D_J_emb).multiply(t.D_J_emb).sum()))
    ctx.close("B_parallel", m.compute_B(LP, P, t, n_c=c["nc"]), want, rtol=1e-8, atol=0, msg="trace term computed in parallel")


def lterm_sparse(rng, n, rep, start):
    from mssm.src.python.custom_types import LambdaTerm, PenType

    D = np.zeros((n, n))
    D[:, :n - 1] = rng.normal(size=(n, n - 1))
    t = LambdaTerm()
    t.type = PenType.DIFFERENCE
    De = scp.sparse.block_diag([scp.sparse.csc_array((start, start))] + [D] * rep, format="csc")
    De = scp.sparse.csc_array(De)
    De.sort_indices()
    t.S_J, t.rep_sj, t.start_index, t.rank, t.lam = csc(D @ D.T), rep, start, (n - 1) * rep, 1.0
    t.D_J_emb = De
    t.S_J_emb = (De @ De.T).tocsc()
    return t, De, De.shape[0]


def bigcluster(c, ctx, m, rng):
    n, rep = 5, 60
    t, De, tot = lterm_sparse(rng, n, rep, 2)
    A = spd_big(rng, tot)
    Ai = np.linalg.inv(A.toarray())
    LP, Pr, _ = m.cpp_cholP(A)
    P = m.compute_eigen_perm(Pr)
    t.clust_series = list(range(20 * c["nc"] + 3))
    t.clust_weights = [rng.random(int(rng.integers(1, 5))) for _ in t.clust_series]
    lw, up = m.compute_B(LP, P, t, n_c=c["nc"])
    Dd = De.toarray()
    elw = eup = 0
    for s, w in zip(t.clust_series, t.clust_weights):
        d = Dd[:, 2 + s * n: 2 + s * n + n - 1]
        q = np.trace(d.T @ Ai @ d)
        elw += np.sum(w) * q
        eup += len(w) * q
    ctx.close("cluster_B", [lw, up], [elw, eup], rtol=1e-8, atol=1e-10, msg="cluster approximations in parallel")


def dep(c, ctx, m, rng):
    import eigen_solvers as e

    n = c["n"]
    X1 = np.asfortranarray(rng.normal(size=(n, c["k1"])))
    X2 = rng.normal(size=(n, c["k2"]))
    nd = int(rng.integers(0, min(c["k2"], 3) + 1))
    which = rng.choice(c["k2"], size=nd, replace=False)
    for j in which:
        X2[:, j] = X1 @ rng.normal(size=c["k1"])
    idx, rank = e.id_dependencies(X1, np.asfortranarray(X2), np.power(np.finfo(float).eps, 0.5))
    both = np.linalg.matrix_rank(np.concatenate([X1, X2], axis=1))
    gain = both - np.linalg.matrix_rank(X1)
    ctx.ok("dependencies", rank == gain, f"rank of the second matrix given the first: {rank}, expected {gain}")
    lost = [int(i) for i in np.asarray(idx)[rank:]]
    keep = [j for j in range(c["k2"]) if j not in lost]
    ctx.ok("dependencies", len(lost) == c["k2"] - gain and np.linalg.matrix_rank(np.concatenate([X1, X2[:, keep]], axis=1)) == both,
           f"dependent columns {lost}: the rest does not span the same space")
