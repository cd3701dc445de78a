"""Dense account of smoothing parameter uncertainty (Wood, Pya & Saefken, 2016) of a fitted model."""
import numpy as np


class Unc:
    pass


def dense(a):
    return a.toarray() if hasattr(a, "toarray") else np.asarray(a, float)


def reference(m, phi):
    """Everything the first-order correction needs, from the model's Hessian, penalties, coefficients; None if it is numerically unclear."""
    b = np.asarray(m.coef, float).ravel()
    p = len(b)
    H = -dense(m.hessian)
    pens = [(t.lam, dense(t.S_J_emb)) for t in m.overall_penalties]
    k = len(pens)
    S = sum((lam * s for lam, s in pens), np.zeros((p, p)))
    d = getattr(m.info, "dropped", None)
    d = [] if d is None else [int(q) for q in d]
    keep = np.setdiff1d(np.arange(p), d)
    kk = np.ix_(keep, keep)
    A = np.zeros((p, p))
    A[kk] = (H + S / phi)[kk]
    Ak = A[kk]
    sc = 1 / np.sqrt(np.abs(np.diag(Ak)))
    Ac = Ak * sc[:, None] * sc[None, :]
    w = np.linalg.eigvalsh(Ac)
    if w[0] <= 1e-9 * w[-1]:
        return None
    V = np.zeros((p, p))
    V[kk] = np.linalg.inv(Ac) * sc[:, None] * sc[None, :]
    # range of the total penalty (does not depend on the smoothing parameters)
    B = sum((s / np.abs(s).max() for _, s in pens), np.zeros((p, p)))
    e, U = np.linalg.eigh(B)
    if np.any((e > 1e-12 * e.max()) & (e < 1e-7 * e.max())):
        return None
    U = U[:, e > 1e-9 * e.max()]
    M = U.T @ S @ U
    sm = 1 / np.sqrt(np.diag(M))
    Mc = M * sm[:, None] * sm[None, :]
    w = np.linalg.eigvalsh(Mc)
    if w[0] <= 1e-8 * w[-1]:
        return None
    Si = U @ (np.linalg.inv(Mc) * sm[:, None] * sm[None, :]) @ U.T
    J = np.column_stack([-lam / phi * (V @ (s @ b)) for lam, s in pens]) if k else np.zeros((p, 0))
    N = np.zeros((k, k))  # negative Hessian of the score
    VS = [lam / phi * (V @ s) for lam, s in pens]
    SS = [lam * (Si @ s) for lam, s in pens]
    for i in range(k):
        for j in range(k):
            h = J[:, i] @ A @ J[:, j] - 0.5 * np.sum(SS[i] * SS[j].T) + 0.5 * np.sum(VS[i] * VS[j].T)
            if i == j:
                h += -0.5 * pens[i][0] / phi * (b @ pens[i][1] @ b) + 0.5 * np.trace(SS[i]) - 0.5 * np.trace(VS[i])
            N[i, j] = -h
    R = Unc()
    R.b, R.p, R.H, R.S, R.V, R.J, R.N, R.pens, R.keep, R.d, R.A, R.U, R.phi, R.k = b, p, H, S, V, J, N, pens, keep, d, A, U, phi, k
    R.eig, R.Q = np.linalg.eigh((N + N.T) / 2) if k else (np.zeros(0), np.zeros((0, 0)))
    R.clear = bool(k) and np.abs(R.eig).min() > 1e-3
    pos = R.eig > 0
    R.Vp = (R.Q[:, pos] / R.eig[pos]) @ R.Q[:, pos].T
    R.Vpr = (R.Q[:, pos] / (R.eig[pos] + 0.1)) @ R.Q[:, pos].T
    R.edf1 = np.trace(V @ H)
    F = V @ H
    R.F = F
    R.ffd = np.sum(F * F.T, axis=0)
    R.upper = 2 * float(m.edf) - R.ffd.sum()
    return R


def vcc(R):
    """Second correction term: uncertainty of the covariance root."""
    A = R.A * R.phi
    L = np.linalg.cholesky(A)
    Li = np.linalg.inv(L)
    D = []
    for lam, s in R.pens:
        G = Li @ (lam * s) @ Li.T
        Phi = np.tril(G)
        Phi[np.diag_indices(R.p)] *= 0.5
        D.append(Li.T @ (L @ Phi).T @ Li.T)  # R^-1 dR R^-1 with R = L'
    C = np.zeros((R.p, R.p))
    for i in range(R.k):
        for j in range(R.k):
            C += R.Vpr[i, j] * D[i] @ D[j].T
    return R.phi * C
