"""Penalties: every smoothing penalty is the stated quadratic form, whatever the constraint and parametrisation."""
import numpy as np
import scipy.linalg as sl

from checks import c13
from vlib import gam_ref as G

RULE = "every penalty matrix is the stated quadratic form of the term's function, with matching root, rank, embedding and sharing"
ASSUMPTIONS = ["penalties are judged through the spline coefficients of the function the coefficients stand for; terms whose raw basis is rank deficient on the data are not judged"]
REQUIRED = {"quadratic_form": 200, "root": 300, "rank": 300, "embedded": 300, "null_space": 40, "identity": 20, "merge": 20,
            "total": 100, "pinv": 30, "reparam_logdet": 100, "reparam_transform": 100, "formulas": 30, "irf": 15, "irf_unpen": 6}
CASE_TIMEOUT = 200


def cases(tier, seed):
    rng = np.random.default_rng(1200 + seed)
    out = []
    for k in range(240 if tier == "quick" else 2500):
        out.append({"kind": "rand", "seed": int(rng.integers(2**31)), "nested": False})
    for k in range(32 if tier == "quick" else 250):
        out.append({"kind": "nested", "seed": int(rng.integers(2**31)), "v": k % 8, "nested": True})
    for k in range(60 if tier == "quick" else 500):
        out.append({"kind": "ids", "seed": int(rng.integers(2**31)), "nested": False})
    for k in range(60 if tier == "quick" else 500):
        out.append({"kind": "multi", "seed": int(rng.integers(2**31))})
    for k in range(24 if tier == "quick" else 200):
        out.append({"kind": "irf", "seed": int(rng.integers(2**31)), "v": k % 6, "tens": (k // 6) % 2 == 1})
    for k in range(30 if tier == "quick" else 200):
        out.append({"kind": "ctor", "seed": int(rng.integers(2**31))})
    return out


def expected(L, ctx, Xt, nper):
    """Expected penalties of one smooth term over its own columns: list of (what, matrix) plus null-space demands."""
    t, ref = L["t"], L["ref"]
    Ts, res, conds = c13.term_T(ref, L["w"], Xt, nper)
    if max(conds) > 3e4 or any(ref.P[k][2] is None for k in range(len(ref.P))):
        return None
    if t.get("is_penalized") is False:
        return []
    out = []
    offs = np.concatenate([[0], np.cumsum(nper)])
    nl = len(nper)
    one = t.get("id") is not None or ref.fs
    for pid, (p, v, P) in enumerate(ref.P):
        Ms = []
        for k in range(nl):
            M = np.zeros((offs[-1], offs[-1]))
            M[offs[k]:offs[k + 1], offs[k]:offs[k + 1]] = Ts[k].T @ P @ Ts[k]
            Ms.append(M)
        groups = [list(range(nl))] if (one or nl == 1) else [[k] for k in range(nl)]
        for g in groups:
            out.append({"what": ("pen", pid, v), "M": sum(Ms[k] for k in g), "g": g})
    return out


def erank(M, tol=1e-9):
    e = sl.eigvalsh(M)
    return int((e > max(e[-1], 0) * tol).sum())


def rank_ok(M, r):
    """r is a defensible rank: eigenvalue r stands out from rounding, eigenvalue r+1 is negligible."""
    e = np.sort(sl.eigvalsh(M))[::-1]
    top = max(e[0], 1e-300)
    return 0 <= r <= len(e) and (r == 0 or e[r - 1] > 1e-12 * top) and (r == len(e) or e[r] < 1e-7 * top)


def run_case(case, ctx):
    if case["kind"] == "ctor":
        return run_ctor(case, ctx)
    if case["kind"] == "multi":
        return run_multi(case, ctx)
    if case["kind"] == "irf":
        return run_irf(case, ctx)
    spec, df, form, pens, X, used, levels, lims, lay = c13.setup(case)
    N = X.shape[1]
    per = list(form.coef_per_term)
    c = 0
    seen = 0
    for L in lay:
        t, ti = L["t"], L["ti"]
        n = int(per[ti])
        mine = [p for p in pens if p.term == ti]
        seen += len(mine)
        sl_ = slice(c, c + n)
        Xt = X[:, sl_]
        for p in mine:
            S = p.S_J_emb.toarray()
            D = p.D_J_emb.toarray()
            ctx.ok("embedded", S.shape == (N, N) and np.all(np.delete(S, range(c, c + n), axis=0) == 0)
                   and np.all(np.delete(S, range(c, c + n), axis=1) == 0), f"penalty of term {ti} reaches outside its coefficients")
            ctx.close("root", D @ D.T, S, 1e-6, 1e-9, f"root of penalty {p.type} of term {t}")
            ctx.ok("rank", rank_ok(S, int(p.rank)), f"penalty {p.type} of term {t}: rank {p.rank} reported, {erank(S)} actual")
            SJ = p.S_J.toarray()
            k = SJ.shape[0]
            if ctx.ok("repeats", p.start_index + k * p.rep_sj <= c + n and p.start_index >= c, f"term {t}: repeats"):
                W = np.zeros((N, N))
                for r in range(int(p.rep_sj)):
                    a = p.start_index + r * k
                    W[a:a + k, a:a + k] = SJ
                ctx.close("blocks", S, W, 1e-9, 1e-12, f"embedded penalty is not {p.rep_sj} copies of the block, term {t}")
        if "X" in L:
            if t["k"] in ("ri", "rs"):
                nl = len(levels[t["by"]]) if t["k"] == "rs" and t.get("by") else 1
                ctx.ok("count", len(mine) == nl, f"{len(mine)} penalties of random term {t}")
                tot = sum(p.S_J_emb.toarray() for p in mine)[sl_, sl_]
                ctx.close("identity", tot, np.eye(n), 1e-12, 0, f"random term {t}")
            else:
                ctx.ok("count", not mine, f"penalised linear term {t}")
            c += n
            continue
        ref, ws = L["ref"], L["w"]
        drop = form.terms[ti].drop_coef
        nper = [ref.n1] * len(ws)
        if drop:
            nper = [ref.n1 - sum(1 for d in drop if k * ref.n1 <= d < (k + 1) * ref.n1) for k in range(len(ws))]
        E = expected(L, ctx, Xt, nper)
        if E is None:
            ctx.seen("not_judged")
            c += n
            continue
        got = [(p, p.S_J_emb.toarray()[sl_, sl_]) for p in mine]
        nullp = [g for g in got if str(g[0].type).endswith("NULL")]
        got = [g for g in got if not str(g[0].type).endswith("NULL")]
        ctx.ok("count", len(got) == len(E), f"{len(got)} smoothing penalties for term {t}, {len(E)} expected")
        sc = max(np.abs(e["M"]).max() for e in E) if E else 1
        left = list(got)
        for e in E:
            if not left:
                break
            j = int(np.argmin([np.abs(g[1] - e["M"]).max() for g in left]))
            g = left.pop(j)
            ctx.close("quadratic_form", g[1], e["M"], 2e-6, 1e-9, f"penalty {e['what']} of term {t}", scale=max(np.abs(e["M"]).max(), 1e-6 * sc))
        if t.get("penalize_null") or ref.fs:
            tot = sum(e["M"] for e in E)
            offs = np.concatenate([[0], np.cumsum(nper)])
            Nsum = sum((g[1] for g in nullp), np.zeros((n, n)))
            if ref.rp == 1 and ref.nv == 1:
                k0 = ref.n1 - erank(tot[:nper[0], :nper[0]])
                want = k0 * (1 if (t.get("id") is not None or ref.fs or len(nper) == 1) else len(nper))
                ctx.ok("null_count", len(nullp) == want, f"term {t}: {len(nullp)} null-space penalties, {want} expected")
                ctx.close("null_space", tot @ Nsum, 0, 0, 1e-6 * sc, f"term {t}: null penalty acts on penalised functions")
                ctx.ok("null_space", erank(tot / sc + Nsum) == n, f"term {t}: null-space not fully penalised")
            else:
                Pr = np.zeros((n, n))
                for k in range(len(nper)):
                    b = tot[offs[k]:offs[k + 1], offs[k]:offs[k + 1]]
                    e_, U = sl.eigh(b)
                    U0 = U[:, e_ <= 1e-7 * max(1, e_[-1])]
                    Pr[offs[k]:offs[k + 1], offs[k]:offs[k + 1]] = U0 @ U0.T
                if any(np.any((e_ > 1e-12 * max(1, e_[-1])) & (e_ < 1e-5 * max(1, e_[-1]))) for e_ in [sl.eigvalsh(tot)]):
                    ctx.seen("null_ambiguous")
                else:
                    ctx.close("null_space", Nsum, Pr, 0, 2e-5, f"term {t}: null-space penalty is not the projector on the unpenalised functions")
                    ctx.ok("null_count", len(nullp) == (1 if (t.get("id") is not None or len(nper) == 1) else len(nper)), f"term {t}: {len(nullp)} null-space penalties")
        else:
            ctx.ok("null_count", not nullp, f"term {t}: unrequested null-space penalties")
        c += n
    ctx.ok("all_penalties", seen == len(pens), f"{seen} of {len(pens)} penalties belong to a term")
    total_checks(pens, N, case, ctx)


def total_checks(pens, N, case, ctx, shared=True):
    """Total penalty, its pseudo-inverse on multi-penalty blocks, sharing, and the stable reparametrisation."""
    import copy

    from mssm.src.python.gamm_solvers import compute_S_emb_pinv_det
    from mssm.src.python.penalties import combine_shared_penalties, split_shared_penalties
    from mssm.src.python.repara import reparam

    if not pens:
        return
    rng = np.random.default_rng(case["seed"] + 5)
    # sharing
    ids = {}
    for p in pens:
        if p.id is not None:
            ids.setdefault(p.id, []).append(p)
    for p in pens:
        p.lam = float(10 ** rng.uniform(-2, 3))
    for v in ids.values():
        for p in v:
            p.lam = v[0].lam
    flat = [(p.S_J_emb.toarray().copy(), p.D_J_emb.toarray().copy(), p.lam, int(p.rank), p.id) for p in pens]
    Stot = sum(s * lam for s, _, lam, _, _ in flat)
    groups = {}
    for k, (s, d, lam, r, i_) in enumerate(flat):
        groups.setdefault(("id", i_) if i_ is not None else ("own", k), []).append(k)
    mer = combine_shared_penalties(copy.deepcopy(pens))
    ctx.ok("merge_count", len(mer) == len(groups), f"{len(mer)} smoothing parameters for {len(groups)} groups of penalties")
    if len(groups) < len(pens):
        ctx.seen("merge")
    want = [(sum(flat[k][0] for k in ks), sum(flat[k][3] for k in ks), flat[ks[0]][2]) for ks in groups.values()]
    for p in mer:
        S = p.S_J_emb.toarray()
        j = int(np.argmin([np.abs(S - w[0]).max() + (0 if np.isclose(w[2], p.lam) else 1) for w in want]))
        ctx.close("merged_matrix", S, want[j][0], 1e-12, 1e-14, "merged penalty")
        ctx.ok("merged_rank", int(p.rank) == want[j][1] and np.isclose(p.lam, want[j][2]), f"merged rank {p.rank} vs {want[j][1]}")
        ctx.close("merged_root", (p.D_J_emb @ p.D_J_emb.T).toarray(), S, 1e-6, 1e-9, "merged root")
    spl = split_shared_penalties(copy.deepcopy(mer))
    ctx.ok("split", len(spl) == len(pens), f"{len(spl)} penalties after splitting, {len(pens)} before merging")
    pool = list(range(len(flat)))
    for p in spl:
        S = p.S_J_emb.toarray()
        j = min(pool, key=lambda k: np.abs(S - flat[k][0]).max())
        pool.remove(j)
        ctx.close("split_matrix", S, flat[j][0], 1e-12, 1e-14, "penalty changed by merging and splitting")
        ctx.ok("split_lambda", np.isclose(p.lam, flat[j][2]), "lambda changed by merging and splitting")
        if not pool:
            break
    # total and pseudo-inverse
    S_emb, S_pinv, S_root, use_rank = compute_S_emb_pinv_det(N, mer, "svd", root=True)
    ctx.close("total", S_emb.toarray(), Stot, 1e-10, 1e-12, "total penalty")
    sroot = S_root.toarray()
    ctx.close("total_root", sroot @ sroot.T, Stot, 1e-6, 1e-9, "root of the total penalty")
    ctx.ok("rank_flags", len(use_rank) == len(mer), f"{len(use_rank)} rank decisions for {len(mer)} smoothing parameters")
    # per block of coefficients: pseudo-inverse wherever the rank of the weighted sum is clear
    judge = True
    Pi = np.zeros((N, N))
    clear = {}
    for a in sorted({p.start_index for p in pens}):
        ps = [p for p in pens if p.start_index == a]
        M = sum(p.S_J.toarray() * p.lam for p in ps)
        Nn = sum(p.S_J.toarray() / np.linalg.norm(p.S_J.toarray()) for p in ps)
        en = sl.eigvalsh(Nn)
        e, U = sl.eigh(M)
        rk = int((en > 1e-9 * en[-1]).sum())
        pos = e[len(e) - rk:]
        clear[a] = not np.any((np.abs(en) > 1e-13 * en[-1]) & (en < 1e-7 * en[-1])) and e[-1] < 1e4 and pos.min() > 1e-5 and pos.min() > 1e-8 * e[-1] and np.all(np.abs(e[:len(e) - rk]) < 1e-8)
        judge &= bool(clear[a])
        k = M.shape[0]
        for r in range(int(ps[0].rep_sj)):
            Pi[a + r * k:a + (r + 1) * k, a + r * k:a + (r + 1) * k] = (U[:, len(e) - rk:] / pos) @ U[:, len(e) - rk:].T
    for k, p in enumerate(mer):
        st = p.start_indices if p.start_indices is not None and len(np.atleast_1d(p.start_indices)) else [p.start_index]
        if not all(clear.get(a, False) for a in st):
            ctx.seen("not_judged")
            continue
        S = p.S_J_emb.toarray()
        tr = float(np.sum(Pi * S))
        g = int(p.rank) / p.lam if use_rank[k] else float(np.sum(S_pinv.toarray() * S))
        ctx.close("pinv", g, tr, 1e-5, 1e-9, "derivative of the log generalised determinant of the total penalty")
    # stable reparametrisation
    out = reparam(None, copy.deepcopy(mer), None, option=4, form_inverse=2 if judge else 0, form_root=judge)
    Sj, Srp, Sinv, Sroot, S_reps, term_idx, SJ_idx, SJ_coef, Qs, Mp = out
    parts = sorted(pens, key=lambda p: p.start_index)
    starts = sorted({p.start_index for p in parts})
    Q = np.eye(N)
    ld_lib = 0.0
    lo_lib = 0
    reps = {p.start_index: int(p.rep_sj) for p in parts}
    for k, a in enumerate(SJ_idx):
        q = Qs[k].toarray()
        for r in range(reps[a]):
            b = a + r * q.shape[0]
            Q[b:b + q.shape[0], b:b + q.shape[0]] = q
        sgn, l_ = np.linalg.slogdet(S_reps[k].toarray())
        ld_lib += reps[a] * l_
        lo_lib += reps[a] * S_reps[k].shape[0]
    ctx.ok("reparam_blocks", list(SJ_idx) == starts, "blocks of the reparametrisation")
    ctx.close("reparam_orthogonal", Q.T @ Q, np.eye(N), 0, 1e-8, "Q is not orthogonal")
    ctx.close("reparam_transform", Srp.toarray(), Q.T @ Stot @ Q, 1e-7, 1e-9, "total penalty in the new parametrisation")
    ld = 0.0
    dim = 0
    okd = True
    for a in starts:  # per block with scaling, so that the rank is clear
        ps = [p for p in parts if p.start_index == a]
        bs = [p.S_J.toarray() for p in ps]
        Nn = sum(b / np.linalg.norm(b) for b in bs)
        en, Un = sl.eigh(Nn)
        keep = en > en[-1] * 1e-9
        if np.any((np.abs(en) > 1e-13 * en[-1]) & (en < en[-1] * 1e-7)):
            okd = False
        V = Un[:, keep]
        sg, l_ = np.linalg.slogdet(V.T @ sum(b * p.lam for b, p in zip(bs, ps)) @ V)
        ld += l_ * int(ps[0].rep_sj)
        dim += keep.sum() * int(ps[0].rep_sj)
    if okd:
        ctx.ok("reparam_dim", dim == lo_lib, f"{lo_lib} penalised dimensions, {dim} expected")
        ctx.close("reparam_logdet", ld_lib, ld, 1e-6, 1e-5, "log generalised determinant of the total penalty")
    nsp = split_shared_penalties(copy.deepcopy(mer))
    for k, p in enumerate(nsp):
        if k < len(Sj):
            ctx.close("reparam_single", Sj[k].S_J_emb.toarray(), Q.T @ p.S_J_emb.toarray() @ Q, 1e-6, 1e-8, "single penalty in the new parametrisation")
            DD = Sj[k].D_J_emb.toarray()
            ctx.close("reparam_root", DD @ DD.T, Q.T @ p.S_J_emb.toarray() @ Q, 1e-6, 1e-8, "root in the new parametrisation")
    if judge:
        A = Srp.toarray()
        I = Sinv.toarray()
        ctx.close("reparam_inverse", A @ I @ A, A, 1e-5, 1e-7, "inverse of the total penalty in the new parametrisation")
        R = Sroot.toarray()
        ctx.close("reparam_total_root", R @ R.T, A, 1e-6, 1e-9, "root of the total penalty in the new parametrisation")


def run_multi(case, ctx):
    """Penalties of several formulas (distribution parameters) in one coefficient vector."""
    from mssm.src.python.formula import build_penalties
    from mssm.src.python.penalties import embed_shared_penalties

    rng = np.random.default_rng(case["seed"])
    df = G.make_data(case["seed"] % 99991, 300, nlev=3)
    specs = []
    for _ in range(int(rng.integers(2, 5))):
        s = G.rand_spec(rng, 2)
        s = [t for t in s if t.get("id") is None or t["id"] != 7]
        if not any(t["k"] in ("f", "fs") for t in s):
            s.append({"k": "f", "v": ["x0"], "penalize_null": True})
        specs.append(s)
    if rng.random() < 0.4:
        specs[int(rng.integers(len(specs)))] = [{"k": "i"}, {"k": "l", "v": ["z"]}]
    forms = [G.mk_formula(s, df, find_nested=False) for s in specs]
    P = [build_penalties(f) for f in forms]
    off = 0
    want = []
    extra = int(rng.integers(0, 4)) if rng.random() < 0.5 else None
    tot = sum(f.n_coef for f in forms) + (extra or 0)
    o = 0
    for fi, f in enumerate(forms):
        for p in P[fi]:
            W = np.zeros((tot, tot))
            W[o:o + f.n_coef, o:o + f.n_coef] = p.S_J_emb.toarray()
            want.append((W, p.start_index + o, fi))
        o += f.n_coef
    E = embed_shared_penalties(P, forms, extra)
    flat = [p for ps in E for p in ps]
    ctx.ok("formulas_count", len(flat) == len(want), "penalties lost")
    for p, (W, s, fi) in zip(flat, want):
        ctx.close("formulas", p.S_J_emb.toarray(), W, 0, 0, "penalty embedded over several formulas") if p.S_J_emb.shape == W.shape else ctx.fail("formulas", f"shape {p.S_J_emb.shape}")
        ctx.close("formulas_root", (p.D_J_emb @ p.D_J_emb.T).toarray(), W, 1e-6, 1e-9, "root embedded over several formulas")
        ctx.ok("formulas_start", p.start_index == s and p.dist_param == fi, f"start index {p.start_index} vs {s}")
    if flat and not ctx.bad:
        ids = [p.id for p in flat if p.id is not None]
        total_checks(flat, tot, case, ctx)


def run_ctor(case, ctx):
    from mssm.src.python.custom_types import Constraint, ConstType, PenType
    from mssm.src.python.penalties import DifferencePenalty, IdentityPenalty

    rng = np.random.default_rng(case["seed"])
    K = int(rng.integers(5, 16))

    def mats(o, k):
        S, D = np.zeros((k, k)), np.zeros((k, k))
        np.add.at(S, (np.array(o[1], int), np.array(o[2], int)), o[0])
        np.add.at(D, (np.array(o[4], int), np.array(o[5], int)), o[3])
        return S, D, int(o[6])

    for m in (1, 2, 3):
        P0 = G.dpen(K, m)
        Z = sl.qr(rng.uniform(0.1, 1, (K, 1)))[0][:, 1:]
        j = int(rng.integers(K))
        for c, T in ((None, np.eye(K)), (Constraint(Z, ConstType.QR), Z), (Constraint(j, ConstType.DROP), np.delete(np.eye(K), j, 1))):
            S, D, r = mats(DifferencePenalty().constructor(K, c, m=m), T.shape[1])
            ctx.close("constructor", S, T.T @ P0 @ T, 1e-12, 1e-12, f"difference penalty m={m} {c and c.type}")
            ctx.close("constructor_root", D @ D.T, S, 1e-10, 1e-12, "root")
            ctx.ok("constructor_rank", rank_ok(S, r), f"rank {r} vs {erank(S)} m={m} {c and c.type}")
        S, D, r = mats(DifferencePenalty().constructor(K, Constraint(j, ConstType.DIFF), m=m), K - 1)
        ctx.close("constructor_root", D @ D.T, S, 1e-10, 1e-12, "root (difference coding)")
        ctx.ok("constructor_rank", rank_ok(S, r), f"rank {r} vs {erank(S)} m={m} DIFF")
    S, D, r = mats(IdentityPenalty(PenType.IDENTITY).constructor(K, None), K)
    ctx.close("constructor", S, np.eye(K), 0, 0, "identity")
    ctx.ok("constructor_rank", r == K, "rank")
    a = rng.uniform(0.2, 3)
    S, D, r = mats(IdentityPenalty(PenType.DISTANCE).constructor(K, None, f=lambda x: x**a), K)
    ctx.close("constructor", S, np.diag(np.arange(1, K + 1.0) ** a), 1e-12, 0, "distance penalty")
    ctx.close("constructor_root", D @ D.T, S, 1e-10, 1e-12, "root of the distance penalty")


def run_irf(case, ctx):
    """Impulse response terms, penalised or not, next to smooth and random terms."""
    import pandas as pd
    from mssm.models import Formula, f, i, irf, l, lhs, ri
    from mssm.src.python.formula import build_penalties

    rng = np.random.default_rng(case["seed"])
    ns, v = int(rng.integers(3, 7)), case["v"]
    T = [int(a) for a in rng.integers(40, 70, ns)]
    df = pd.DataFrame({"time": np.concatenate([np.arange(t) for t in T]).astype(float), "x0": rng.uniform(0, 1, sum(T)), "series": np.repeat([f"s{k}" for k in range(ns)], T)})
    df["fac"] = np.repeat(np.array(["u", "v"])[np.r_[0, 1, rng.integers(0, 2, ns - 2)]], T)
    df["y"] = rng.normal(0, 1, len(df))
    kw = {"max_c": 50.0, "min_c": 0.0, "convolve": True}

    def on():
        return [int(a) for a in rng.integers(0, 30, ns)]

    terms, want = [i()], [None]
    if rng.random() < 0.5:
        terms.append(l(["fac"]))
        want.append(None)
    unpen = v % 2 == 0
    nk, m = int(rng.integers(5, 10)), int(rng.choice([1, 2, 3]))
    by = v % 3 == 1
    from mssm.src.python.penalties import DifferencePenalty
    if unpen:
        terms.append(irf(["time"], on(), [kw], by="fac" if by else None, nk=nk, is_penalized=False))
        want.append([])
        ctx.seen("irf_unpen")
    nk2 = int(rng.integers(5, 10))
    idk = 4 if v == 4 else None
    terms.append(irf(["time"], on(), [kw], by="fac" if (by or v == 4) else None, id=idk, nk=nk2, penalty=[DifferencePenalty()], pen_kwargs=[{"m": m}]))
    P = G.dpen(nk2, m)
    Z = np.zeros_like(P)
    if case.get("tens"):  # response surface: one penalty per margin, of all coefficients
        terms.pop()
        ctx.seen("irf_tensor")
        ka, kb = int(rng.integers(4, 7)), int(rng.integers(4, 6))
        terms.append(irf(["time", "x0"], on(), [kw, {}], by="fac" if (by or v == 4) else None, id=idk, nk=[ka, kb], penalty=[DifferencePenalty()], pen_kwargs=[{"m": m}]))
        w = []
        for P in (np.kron(G.dpen(ka, m), np.eye(kb)), np.kron(np.eye(ka), G.dpen(kb, m))):
            Z = np.zeros_like(P)
            w += [np.block([[P, Z], [Z, P]])] if v == 4 else [np.block([[P, Z], [Z, Z]]), np.block([[Z, Z], [Z, P]])] if by else [P]
        want.append(w)
    elif v == 4:
        want.append([np.block([[P, Z], [Z, P]])])
    elif by:
        want.append([np.block([[P, Z], [Z, Z]]), np.block([[Z, Z], [Z, P]])])
    else:
        want.append([P])
    terms.append(f(["x0"], nk=6))
    want.append("smooth")
    terms.append(ri("series"))
    want.append([np.eye(ns)])
    form = Formula(lhs("y"), terms, data=df, series_id="series", print_warn=False)
    pens = build_penalties(form)
    N = form.n_coef
    ctx.seen("irf")
    ctx.seen("formulas")
    for ti, w in enumerate(want):
        ix = np.asarray(form.coef_idx_per_term[ti])
        mine = [q for q in pens if q.term == ti]
        for q in mine:
            S = q.S_J_emb.toarray()
            ctx.ok("embedded", S.shape == (N, N) and np.all(np.delete(S, ix, axis=0) == 0) and np.all(np.delete(S, ix, axis=1) == 0), f"penalty of term {ti} reaches outside its coefficients")
            ctx.close("root", q.D_J_emb.toarray() @ q.D_J_emb.toarray().T, S, 1e-6, 1e-9, f"root of a penalty of term {ti}")
            ctx.ok("rank", rank_ok(S, int(q.rank)), f"rank {q.rank} of a penalty of term {ti}, {erank(S)} actual")
        if w is None or w == "smooth":
            ctx.ok("irf_count", len(mine) == (0 if w is None else 1), f"{len(mine)} penalties of term {ti}")
            continue
        if ctx.ok("irf_count", len(mine) == len(w), f"{len(mine)} penalties of term {ti}, expected {len(w)}"):
            for q, W in zip(mine, w):
                ctx.close("irf", q.S_J_emb.toarray()[np.ix_(ix, ix)], W, 1e-9, 1e-12, f"penalty of impulse response or random term {ti}")
