"""Model matrices: every term's columns against an independent basis and coding."""
import numpy as np
import scipy.linalg as sl

from vlib import gam_ref as G

RULE = "every column block of the model matrix is the stated basis/coding of its term; smooths span the (constrained) spline space"
ASSUMPTIONS = ["span and constraint checks need the raw basis to have full column rank on the data"]
REQUIRED = {"linear_columns": 50, "in_span": 100, "sum_to_zero": 60, "zero_rows": 40, "dimension": 100, "use_only": 50, "irf_columns": 10, "nested": 10}
CASE_TIMEOUT = 200


def cases(tier, seed):
    rng = np.random.default_rng(1300 + seed)
    out = []
    n = 260 if tier == "quick" else 2500
    for k in range(n):
        out.append({"kind": "rand", "seed": int(rng.integers(2**31)), "nested": False})
    for k in range(40 if tier == "quick" else 300):
        out.append({"kind": "nested", "seed": int(rng.integers(2**31)), "v": k % 8, "nested": True})
    for k in range(40 if tier == "quick" else 300):
        out.append({"kind": "irf", "seed": int(rng.integers(2**31)), "v": k % 8})
    for k in range(24 if tier == "quick" else 200):
        out.append({"kind": "basis", "seed": int(rng.integers(2**31))})
    return out


def nested_spec(v, rng):
    nk = int(rng.integers(4, 6))
    if v == 0:
        return [{"k": "i"}, {"k": "f", "v": ["x0"]}, {"k": "f", "v": ["x0", "x1"], "te": True}]
    if v == 1:
        return [{"k": "i"}, {"k": "f", "v": ["x0"]}, {"k": "f", "v": ["x1"]}, {"k": "f", "v": ["x0", "x1"], "te": True, "nk": nk}]
    if v == 2:
        return [{"k": "i"}, {"k": "f", "v": ["x0"], "by": "fac"}, {"k": "f", "v": ["x0", "x1"], "te": True, "by": "fac"}]
    if v == 3:
        return [{"k": "i"}, {"k": "f", "v": ["x0"], "nk": 6}, {"k": "f", "v": ["x1"], "nk": 7}, {"k": "f", "v": ["x0", "x1"], "te": False}]
    if v == 4:
        return [{"k": "i"}, {"k": "f", "v": ["x0"], "by": "bin", "id": 3}, {"k": "f", "v": ["x1"], "by": "bin"},
                {"k": "f", "v": ["x0", "x1"], "te": True, "by": "bin", "id": 5, "rp": int(rng.choice([0, 2]))}]
    if v == 6:
        return [{"k": "i"}, {"k": "fs", "v": ["x0"], "by": "grp"}]
    if v == 7:
        return [{"k": "i"}, {"k": "f", "v": ["x0"]}, {"k": "f", "v": ["x1"]}, {"k": "f", "v": ["x2"], "nk": 5}, {"k": "f", "v": ["x0", "x1"], "te": False},
                {"k": "f", "v": ["x0", "x1", "x2"], "te": True, "nk": 4}]
    return [{"k": "i"}, {"k": "f", "v": ["x2"]}, {"k": "f", "v": ["x0", "x1"], "te": True}, {"k": "f", "v": ["x1", "x2"], "te": True, "nk": nk}]


def setup(case):
    """spec, data, formula, model matrix, penalties, reference layout."""
    from mssm.src.python.formula import build_model_matrix, build_penalties

    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "nested":
        spec = nested_spec(case["v"], rng)
    elif case["kind"] == "ids":
        nk = int(rng.integers(5, 9))
        spec = [{"k": "i"}, {"k": "f", "v": ["x0"], "id": 7, "nk": nk}, {"k": "f", "v": ["x1"], "id": 7 if rng.random() < 0.7 else 8, "nk": nk + int(rng.integers(0, 3))}]
        if rng.random() < 0.5:
            spec.append({"k": "f", "v": ["x2"], "id": 7 if rng.random() < 0.5 else 30, "nk": nk})
        if rng.random() < 0.4:
            spec.append({"k": "f", "v": ["x3"]})
        if rng.random() < 0.4:
            spec.append({"k": "f", "v": ["x0", "x1"], "te": False, "id": 60})
            if rng.random() < 0.5:
                spec.append({"k": "f", "v": ["x2", "x3"], "te": True, "id": 60})
        if rng.random() < 0.7:
            spec.append({"k": "ri", "v": ["grp"], "id": 90})
        if rng.random() < 0.7:
            spec.append({"k": "rs", "v": ["z"], "by": "grp" if rng.random() < 0.5 else None, "id": int(rng.choice([90, 200]))})
    else:
        spec = G.rand_spec(rng)
    df = G.make_data(case["seed"] % 100003, int(rng.choice([400, 700])), nlev=int(rng.choice([2, 3, 4])),
                     na=float(rng.choice([0, 0.05])))
    form = G.mk_formula(spec, df, **({} if case.get("nested") else {"find_nested": False}))
    pens = build_penalties(form)
    X = build_model_matrix(form).toarray()
    used = ~df["y"].isna().to_numpy()
    levels = {v: sorted(set(df[v])) for v in ("fac", "grp", "bin")}
    lims = {v: (df[v].min(), df[v].max()) for v in ("x0", "x1", "x2", "x3")}
    lay = G.layout(spec, df, used, levels, lims)
    return spec, df, form, pens, X, used, levels, lims, lay


def term_T(ref, ws, Xt, nper):
    """The map from coefficients to raw spline coefficients, one per block: X_blk = diag(w) B T.
    Pooled over blocks when they all have the full number of columns (the map is then shared)."""
    B = ref.raw_used
    Ts, res, conds = [], [], []
    off = 0
    pooled = all(n == ref.n1 for n in nper)
    if pooled and len(nper) > 1:
        rows = np.zeros(len(B), bool)
        Y = np.zeros((len(B), ref.n1))
        for w, n in zip(ws, nper):
            k = np.abs(w) > 1e-9
            rows |= k
            Y[k] = Xt[k, off:off + n] / w[k, None]
            off += n
        T, r, c = _ls(B[rows], Y[rows])
        return [T] * len(nper), [r], [c]
    for w, n in zip(ws, nper):
        k = np.abs(w) > 1e-9
        T, r, c = _ls(B[k], Xt[k, off:off + n] / w[k, None])
        Ts.append(T)
        res.append(r)
        conds.append(c)
        off += n
    return Ts, res, conds


def _ls(B, Y):
    U, s, Vt = np.linalg.svd(B, full_matrices=False)
    r = s > s[0] * 1e-11
    T = Vt[r].T @ ((U[:, r].T @ Y) / s[r, None])
    return T, float(np.max(np.abs(B @ T - Y), initial=0) / (1 + np.max(np.abs(Y), initial=0))), (s[0] / s[-1] if s[-1] > 0 and len(B) >= B.shape[1] else np.inf)


def run_case(case, ctx):
    if case["kind"] == "irf":
        return run_irf(case, ctx)
    if case["kind"] == "basis":
        return run_basis(case, ctx)
    from mssm.src.python.formula import build_model_matrix

    spec, df, form, pens, X, used, levels, lims, lay = setup(case)
    ctx.ok("rows", X.shape[0] == used.sum(), f"{X.shape[0]} rows for {used.sum()} complete observations")
    ctx.ok("coef_count", X.shape[1] == form.n_coef == len(form.coef_names), f"{X.shape[1]} columns, n_coef {form.n_coef}, names {len(form.coef_names)}")
    c = 0
    per = list(form.coef_per_term)
    for L in lay:
        t, ti = L["t"], L["ti"]
        n = int(per[ti])
        Xt = X[:, c:c + n]
        ctx.ok("coef_index", list(form.coef_idx_per_term[ti]) == list(range(c, c + n)), f"term {ti} coefficient indices")
        if "X" in L:
            ctx.close("linear_columns", Xt, L["X"], 1e-12, 1e-12, f"term {t}")
            if L["names"] is not None and t["k"] == "l":
                ctx.ok("names", list(form.coef_names[c:c + n]) == L["names"], f"names {form.coef_names[c:c+n]} vs {L['names']}")
        else:
            ref, ws = L["ref"], L["w"]
            drop = getattr(form.terms[ti], "drop_coef", None)
            full = ref.n1 * len(ws)
            if not drop:
                ctx.ok("dimension", n == full, f"term {t}: {n} coefficients, {full} expected")
                nper = [ref.n1] * len(ws)
            else:
                nper = [ref.n1 - sum(1 for d in drop if k * ref.n1 <= d < (k + 1) * ref.n1) for k in range(len(ws))]
                ctx.ok("dimension", n == sum(nper), f"term {t}")
            if n != sum(nper):
                return
            off = 0
            for w, m in zip(ws, nper):
                ctx.close("zero_rows", Xt[w == 0, off:off + m], 0, 0, 0, f"term {t}: entries outside the block's observations")
                off += m
            Ts, res, conds = term_T(ref, ws, Xt, nper)
            for r in res:
                ctx.ok("in_span", r < 1e-8, f"term {t}: columns leave the spline space by {r:.3g}")
            for T, m, cd in zip(Ts, nper, conds):
                if not (cd < 1e5):
                    continue
                sv = np.linalg.svd(T, compute_uv=False)
                ctx.ok("parametrises", sv[-1] > 1e-9 * sv[0] and T.shape[1] == m, f"term {t}: {T.shape[1]} columns of rank-deficient map")
                if ref.ident and (ref.const == "QR"):
                    sums_ok(ctx, ref, T, df.loc[used], t)
                elif ref.ident and ref.const == "DIFF" and (ref.te or ref.nv == 1):
                    s1 = T.sum(0) if ref.rp != 2 else (np.linalg.inv(_K(ref)) @ T).sum(0)
                    ctx.close("diff_sum", s1, 0, 0, 1e-7 * cd**0.5 * np.abs(T).max(), f"term {t}: coefficients of the difference coding do not sum to zero")
                if ref.ident and not drop:
                    F = ref.raw_used @ T
                    one = np.ones(len(F))
                    b = np.linalg.lstsq(F, one, rcond=None)[0]
                    ctx.ok("constant_removed", np.linalg.norm(F @ b - one) > 1e-6 * np.sqrt(len(one)), f"term {t}: the constant is still in the span")
                if ref.rp == 1 and ref.nv == 1:
                    M = (ref.raw_used @ T).T @ (ref.raw_used @ T)
                    dg = np.sqrt(np.outer(np.diag(M), np.diag(M)))
                    ctx.close("natural_orthogonal", (M / dg) - np.diag(np.diag(M / dg)), 0, 0, 1e-6, f"term {t}: natural parametrisation is not orthogonal")
        c += n
    ctx.ok("all_columns", c == X.shape[1], f"{c} of {X.shape[1]} columns accounted for")
    # one term only
    rng = np.random.default_rng(case["seed"] + 1)
    ti = int(rng.integers(len(spec)))
    X1 = build_model_matrix(form, use_only=[ti]).toarray()
    Xw = np.zeros_like(X)
    idx = np.asarray(form.coef_idx_per_term[ti], int)
    Xw[:, idx] = X[:, idx]
    ctx.close("use_only", X1, Xw, 0, 0, f"use_only={ti}")
    if case["kind"] == "nested" and case["v"] != 6:
        s = np.linalg.svd(X, compute_uv=False)
        ctx.ok("nested", s[-1] > 1e-9 * s[0], f"model matrix is rank deficient although nested terms were searched for: smallest/largest singular value {s[-1]/s[0]:.3g}")
        f0 = G.mk_formula(spec, df, find_nested=False)
        from mssm.src.python.formula import build_penalties
        build_penalties(f0)
        X0 = build_model_matrix(f0).toarray()
        s0 = np.linalg.svd(X0, compute_uv=False)
        ctx.ok("nested_span", int((s0 > 1e-9 * s0[0]).sum()) == X.shape[1], f"rank {int((s0 > 1e-9*s0[0]).sum())} of the full model, {X.shape[1]} kept")
        rr = X0 - X @ np.linalg.lstsq(X, X0, rcond=None)[0]
        ctx.close("nested_span", rr, 0, 0, 1e-6 * np.abs(X0).max(), "dropping nested coefficients changed the model space")
    ctx.sample = {"spec": spec, "shape": list(X.shape)}


def _K(ref):
    """Raw coefficients from tensor coefficients of margins that are values at grid points."""
    M = []
    for v in range(ref.nv):
        A = G.bspl(np.linspace(*ref.lims[v], ref.nks[v]), ref.Kraw[v], *ref.lims[v], ref.deg)
        M.append(np.linalg.inv(A))
    return G.kron_all(M)


def sums_ok(ctx, ref, T, d, t):
    if ref.nv == 1 or ref.te:
        s = ref.raw_used.sum(0) @ T
        ctx.close("sum_to_zero", s / len(d), 0, 0, 1e-8 * max(1, np.abs(T).max()), f"term {t}: column sums over the data")
    else:
        Tr = T.reshape(*ref.Kraw, -1)
        for v, b in enumerate(ref.marg(d)):
            s = np.tensordot(b.sum(0), np.moveaxis(Tr, v, 0), axes=1)
            ctx.close("sum_to_zero", s / len(d), 0, 0, 1e-7 * max(1, np.abs(T).max()), f"term {t}: margin {v} not centred")


def run_irf(case, ctx):
    import pandas as pd
    from mssm.models import Formula, f, i, irf, lhs
    from mssm.src.python.formula import build_model_matrix, build_penalties

    rng = np.random.default_rng(case["seed"])
    ns, v = int(rng.integers(3, 7)), case["v"]
    T = [int(a) for a in rng.integers(40, 90, ns)]
    df = pd.DataFrame({"time": np.concatenate([np.arange(t) for t in T]).astype(float),
                       "x0": rng.uniform(0, 1, sum(T)), "series": np.repeat([f"s{k}" for k in range(ns)], T)})
    facs = np.array(["u", "v"])[np.r_[0, 1, rng.integers(0, 2, ns - 2)]]
    df["fac"] = np.repeat(facs, T)
    df["y"] = rng.normal(0, 1, len(df))
    if rng.random() < 0.5:
        df.loc[rng.random(len(df)) < 0.05, "y"] = np.nan
    on = [int(a) for a in rng.integers(0, 30, ns)]
    nk = int(rng.integers(5, 12))
    mx = float(rng.integers(35, 60))
    kw = {"max_c": mx, "min_c": 0.0, "convolve": True}
    deg = 3
    if rng.random() < 0.3:
        deg = 2
        kw["deg"] = 2
    by = "fac" if v % 3 == 1 else None
    tens = v >= 6  # response surfaces over time and a covariate
    nk2 = int(rng.integers(4, 7))
    if tens:
        nk = int(rng.integers(5, 8))
        by = "fac" if v == 6 else None
        terms = [i(), irf(["time", "x0"], on, [kw, {"deg": deg}], by=by, nk=[nk, nk2])]
    else:
        terms = [i(), irf(["time"], on, [kw], by=by, nk=nk, **({"id": 4} if v == 4 and by else {}))]
    two = v % 3 == 2
    if two:
        on2 = [int(a) for a in rng.integers(0, 30, ns)]
        terms.append(irf(["time"], on2, [kw], nk=nk + 1))
    sm = not tens and rng.random() < 0.5
    if sm:
        terms.append(f(["x0"], nk=6))
    form = Formula(lhs("y"), terms, data=df, series_id="series", print_warn=False)
    build_penalties(form)
    X = build_model_matrix(form).toarray()
    used = ~df["y"].isna().to_numpy()

    def block(on, nk):
        out = []
        kn = np.linspace(0, mx, nk + deg + 1)
        for t, o in zip(T, on):
            B = np.zeros((t, nk))
            tt = np.arange(t, dtype=float)
            for j in range(nk):
                from scipy.interpolate import BSpline

                B[:, j] = np.nan_to_num(BSpline.basis_element(kn[j:j + deg + 2], extrapolate=False)(tt))
            sh = np.zeros_like(B)
            if o < t:
                sh[o:] = B[:t - o]
            out.append(sh)
        return np.vstack(out)

    B = block(on, nk)
    if tens:
        ctx.seen("irf_tensor")
        B = G.rowkron(B, G.bspl(df["x0"].to_numpy(), nk2, df["x0"].min(), df["x0"].max(), deg))
    cols = [np.ones((len(df), 1))]
    if by:
        for lv in sorted(set(facs)):
            cols.append(B * (df["fac"].to_numpy() == lv)[:, None])
    else:
        cols.append(B)
    if two:
        cols.append(block(on2, nk + 1))
    W = np.hstack(cols)[used]
    ctx.close("irf_columns", X[:, :W.shape[1]], W, 0, 1e-9, "impulse response columns")
    ctx.ok("coef_count", X.shape[1] == form.n_coef == W.shape[1] + (6 if sm else 0), f"{X.shape[1]} columns")
    ctx.ok("coef_names", len(form.coef_names) == X.shape[1], f"{len(form.coef_names)} names for {X.shape[1]} coefficients")
    if v in (0, 1, 5, 6) and case["seed"] % 2:
        # built by several processes
        import multiprocessing as mp

        with mp.Pool(2) as pool:
            Y = build_model_matrix(form, pool).toarray()
        ctx.close("irf_pool", Y, X, 0, 1e-12, "impulse response columns built by several processes")


def run_basis(case, ctx):
    from mssm.src.python.smooths import B_spline_basis, TP_basis_calc

    rng = np.random.default_rng(case["seed"])
    n = int(rng.integers(5, 200))
    deg = int(rng.integers(1, 6))
    K = deg + int(rng.integers(1, 20))
    x = rng.normal(0, 10 ** rng.uniform(-2, 2), n) + rng.normal(0, 3)
    a, b = x.min(), x.max()
    if rng.random() < 0.5:
        a, b = a - rng.random() * (b - a), b + rng.random() * (b - a)
    B = B_spline_basis(x, None, K, min_c=a, max_c=b, deg=deg)
    W = G.bspl(x, K, a, b, deg)
    tol = 1e-13 * float(K + deg) ** deg * 10 + 1e-9
    ctx.close("basis_values", B, W, 0, tol, f"B-splines K={K} deg={deg}")
    ctx.close("partition_of_unity", B.sum(1), 1, 0, tol, "basis does not sum to one")
    ctx.ok("local_support", np.all((np.abs(B) > tol).sum(1) <= deg + 1), "more than deg+1 basis functions at one point")
    C = rng.normal(0, 1, (n, int(rng.integers(1, 6))))
    ctx.close("row_kronecker", TP_basis_calc(B, C), G.rowkron(B, C), 1e-12, 1e-12, "tensor basis")
