"""Formulas: variables, codings, missing rows, series, coefficients and their names are those of the data and terms."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

RULE = ("random data frames (factors with odd level names and orders, integer and real covariates, missing responses and covariates, series) x random term lists (main effects, interactions, smooths with by, tensor, binary, factor and sub-group smooths, "
        "random intercepts and slopes, impulse responses), with and without codebook, in memory and from csv files, new data; non-trivial = a formula was built and its encoding and names compared with the data")
ASSUMPTIONS = ["covariates are float64 or int64, factors are strings, rows of one series are adjacent", "data read from files have no missing covariates where the response is present"]
REQUIRED = {"types": 80, "limits": 80, "levels": 80, "coding": 80, "encoded": 80, "missing": 80, "series": 30, "ncoef": 80, "partition": 80, "named_column": 200, "named_block": 60, "getters": 80, "pure": 80, "li": 40,
            "new": 40, "files": 12, "codebook": 30, "disc_features": 4, "disc_sets": 4, "irf_names": 6}
CASE_TIMEOUT = 200

NAMES = [["a", "b", "c", "d"], ["b", "B", "A", "a"], ["10", "9", "1", "2"], ["lo", "hi", "mid", "x x"], ["z", "y", "x", "w"], ["c:1", "c:2", "d", "e"]]


def cases(tier, seed):
    rng = np.random.default_rng([25, seed])
    m = 1 if tier == "quick" else 8
    out = []
    for k in range(420 * m):
        out.append({"k": "mem", "seed": int(rng.integers(2**31)), "na": bool(k % 2), "series": k % 3 == 0, "code": k % 4 == 1, "irf": k % 7 == 0})
    for k in range(60 * m):
        out.append({"k": "files", "seed": int(rng.integers(2**31)), "na": k % 2 == 1, "nc": 1 + k % 3 // 2, "keep": k % 4 < 2, "code": k % 5 == 4})
    for k in range(24 * m):
        out.append({"k": "disc", "seed": int(rng.integers(2**31)), "sub": k % 2 == 1, "nsplit": k % 3, "stat": k % 4 == 3, "norm": k % 3 == 0})
    return out


def make(rng, c):
    n = int(rng.integers(60, 160))
    d = {}
    lev = {}
    for v, L in (("A", int(rng.integers(2, 5))), ("B", int(rng.integers(2, 4))), ("S", int(rng.integers(4, 7)))):
        nm = NAMES[int(rng.integers(len(NAMES)))] if v != "S" and c["k"] != "files" else ["s%d" % q for q in rng.permutation(20)[:8]]
        nm = list(np.array(nm, dtype=object)[rng.permutation(len(nm))[:L]])
        L = len(nm)
        x = np.array(nm, dtype=object)[np.concatenate([np.arange(L), rng.integers(0, L, n - L)])]
        d[v] = x[rng.permutation(n)]
        lev[v] = sorted(nm)
    d["x"] = rng.uniform(-3, 5, n)
    d["z"] = rng.integers(0, 40, n) if rng.random() < 0.5 else rng.normal(size=n) * 1e-3
    d["w"] = rng.normal(size=n) * 1e4
    d["unused"] = np.where(rng.random(n) < 0.3, np.nan, 1.0)
    d["y"] = rng.normal(size=n)
    df = pd.DataFrame(d)
    ns = int(rng.integers(3, 7))
    cut = np.sort(rng.choice(np.arange(3, n - 3), ns - 1, replace=False))
    sid = np.zeros(n, dtype=int)
    sid[cut] = 1
    ids = rng.permutation(30)[:ns]
    for v in ("x", "z", "w", "y"):
        if c["k"] == "files" and df[v].dtype == float:
            df[v] = [float(f"{q:.6g}") for q in df[v]]
    df["series"] = ids[np.cumsum(sid)]
    if c["na"]:
        df.loc[rng.random(n) < 0.1, "y"] = np.nan
        if c["k"] == "files":  # whole rows
            bad = rng.random(n) < 0.08
            for v in ("y", "x", "w"):
                df.loc[bad, v] = np.nan
        elif rng.random() < 0.6:
            df.loc[rng.random(n) < 0.06, "x"] = np.nan
            if rng.random() < 0.5:
                df.loc[rng.random(n) < 0.05, "A"] = np.nan
    if c.get("irf"):  # factors of impulse responses are constant within series
        lb = np.array(lev["B"], dtype=object)
        df["B"] = lb[(np.cumsum(sid) + int(rng.integers(3))) % len(lb)]
    return df, lev


def mk_terms(rng, c, df, lev):
    from mssm.src.python.terms import f, fs, i, irf, l, li, ri, rs

    T, S = [], []  # terms, description

    def add(t, **k):
        T.append(t)
        S.append(k)

    inter = bool(rng.random() < 0.75)
    if inter:
        add(i(), k="i")
    lin = []
    for cand in (["A"], ["x"], ["B"], ["A", "x"], ["B", "A"], ["z", "B"], ["x", "z"], ["A", "B", "z"]):
        if rng.random() < 0.35:
            lin.append(cand)
    if not lin:
        lin = [["A"]]
    for v in lin:
        add(l(list(v)), k="l", v=v)
    if c.get("irf"):
        by = "B" if rng.random() < 0.6 else None
        nk = int(rng.integers(5, 8))
        onset = [int(rng.integers(0, 3)) for _ in range(df["series"].nunique())]
        add(irf(["z"], onset, [{}], by=by, nk=nk), k="irf", v=["z"], by=by, nk=nk)
        if rng.random() < 0.5:
            add(irf(["z"], [q + 1 for q in onset], [{}], nk=nk), k="irf", v=["z"], by=None, nk=nk)
        if rng.random() < 0.5:
            add(irf(["z", "w"], onset, [{}, {}], by=by, nk=[4, 5]), k="irf", v=["z", "w"], by=by, nk=20)
    if rng.random() < 0.7:
        by = "A" if rng.random() < 0.6 else None
        nk = int(rng.integers(5, 9))
        add(f(["w"], by=by, nk=nk, id=1 if by and rng.random() < 0.4 else None), k="f", v=["w"], by=by)
    if rng.random() < 0.35:
        add(f(["x", "w"], te=bool(rng.random() < 0.5), by="B" if rng.random() < 0.4 else None, nk=4, rp=0 if c["k"] == "files" else None), k="f", v=["x", "w"])
        S[-1]["by"] = T[-1].by
    if rng.random() < 0.3:
        add(f(["z"], binary=("B", lev["B"][-1]), nk=5), k="f", v=["z"], binary=("B", lev["B"][-1]), by=None)
    if rng.random() < 0.3:
        add(f(["z"], by_cont="w", nk=5), k="f", v=["z"], by=None)
    r = rng.random()
    if r < 0.25:
        add(fs(["x"], rf="S", nk=4), k="f", v=["x"], by="S")
    elif r < 0.45:
        df["SA"] = [f"{a}.{b}" if not pd.isnull(b) else np.nan for a, b in zip(df["S"], df["B"])]
        for b in lev["B"]:
            add(fs(["x"], rf="SA", nk=4, by_subgroup=["B", b]), k="sub", v=["x"], by="SA", sub=b)
    elif r < 0.7:
        add(ri("S"), k="ri", v=["S"])
    elif r < 0.95:
        v = [["x"], ["A"], ["A", "x"]][int(rng.integers(3))]
        add(rs(v, by="S" if v == ["x"] or rng.random() < 0.7 else None), k="rs", v=v, by="S")
        S[-1]["by"] = T[-1].by
    return T, S


def used_vars(S):
    u = []
    for s in S:
        for v in list(s.get("v", [])) + ([s["by"]] if s.get("by") else []) + (["B"] if s.get("binary") or s.get("sub") else []):
            if v not in u:
                u.append(v)
    return u


def opts(v, df, lev):
    """possible parts of a coefficient name that mention v, with the column each stands for"""
    if v in lev:
        return [(f"{v}_{q}", (df[v] == q).to_numpy(float)) for q in lev[v]]
    return [(v, df[v].to_numpy(float))]


def run_case(c, ctx):
    rng = np.random.default_rng(c["seed"])
    {"mem": mem, "files": files, "disc": disc}[c["k"]](c, rng, ctx)


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def judge(F, S, T, df, lev, c, ctx, book, what=""):
    """everything about variables and coefficients, whichever way the data were given"""
    from mssm.src.python.custom_types import VarType

    vm = F.get_var_map()
    cov = T
    types, mins, maxs, levels, cod, inv = F.get_var_types(), F.get_var_mins(), F.get_var_maxs(), F.get_factor_levels(), F.get_factor_codings(), F.get_coding_factors()
    need = used_vars(S)
    for v in need:
        if any(s["k"] == "sub" and s["by"] == v for s in S):
            continue
        ctx.ok("var_known", v in vm, f"{what}{v} is used by a term but not encoded", None)
        if v not in vm:
            continue
        if v in lev:
            ctx.ok("types", types[v] == VarType.FACTOR, f"{what}{v} is not coded as factor")
            want = sorted(lev[v])
            got = [str(q) for q in levels[v]]
            ctx.ok("levels", sorted(got) == want and len(set(got)) == len(got), f"{what}levels of {v}: {got}, data {want}")
            codes = [cod[v][q] for q in levels[v]]
            ctx.ok("coding", sorted(codes) == list(range(len(want))) and all(inv[v][cod[v][q]] == q for q in levels[v]), f"{what}codes of {v}: {cod[v]} / {inv[v]}")
            if book and v in book:
                ctx.ok("codebook", all(cod[v][q] == book[v][q] for q in want), f"{what}codes of {v} are {cod[v]}, codebook {book[v]}")
        else:
            ctx.ok("types", types[v] == VarType.NUMERIC, f"{what}{v} is not coded as numeric")
            x = df[v].to_numpy(float)
            ctx.ok("limits", np.allclose([mins[v], maxs[v]], [np.nanmin(x), np.nanmax(x)], rtol=1e-12, atol=0), f"{what}limits of {v}: {mins[v]}, {maxs[v]}; data {np.nanmin(x)}, {np.nanmax(x)}")
    a, b = F.get_var_mins_maxs()
    ctx.ok("limits", str(a) == str(mins) and str(b) == str(maxs), "get_var_mins_maxs differs from the single getters")


def names_and_blocks(F, S, df, lev, ctx, X, rows, what=""):
    n = F.get_n_coef()
    names = list(F.coef_names)
    idx = F.coef_idx_per_term
    ctx.ok("ncoef", n == len(names) == X.shape[1] == int(np.sum(F.coef_per_term)), f"{what}{n} coefficients, {len(names)} names, {X.shape[1]} columns, {int(np.sum(F.coef_per_term))} over terms")
    allidx = np.sort(np.concatenate([np.asarray(q, dtype=int) for q in idx]))
    ctx.ok("partition", same(allidx, np.arange(n)) and all(len(q) == k for q, k in zip(idx, F.coef_per_term)), f"{what}indices of coefficients per term do not divide the coefficients")
    if len(names) != X.shape[1] or not same(allidx, np.arange(n)):
        return
    sub = df.loc[rows]
    ir = [names[j] for s, ix in zip(S, idx) if s["k"] == "irf" for j in ix]
    ctx.ok("irf_distinct", len(set(ir)) == len(ir), f"{what}coefficients of different impulse response terms have the same names {ir[:3]}")
    for s, ix in zip(S, idx):
        ix = np.asarray(ix, dtype=int)
        if s["k"] == "i":
            ctx.ok("named_column", names[ix[0]] == "Intercept" and np.all(X[:, ix[0]] == 1), f"{what}intercept")
        elif s["k"] in ("l", "ri", "rs"):
            seen = set()
            cand = {}
            vs = list(s["v"])
            parts = [opts(v, sub, lev) for v in vs]
            for comb in itertools.product(*parts):
                nm = "_".join(q[0] for q in comb)
                col = np.prod([q[1] for q in comb], axis=0)
                if s["k"] == "ri":
                    cand.setdefault(f"ri({nm})", []).append(col)
                elif s["k"] == "rs" and s.get("by"):
                    for lv in lev[s["by"]]:
                        cand.setdefault(f"rs({nm}_{lv})", []).append(col * (sub[s["by"]] == lv).to_numpy(float))
                elif s["k"] == "rs":
                    cand.setdefault(f"rs({nm})", []).append(col)
                else:
                    cand.setdefault(nm, []).append(col)
            for j in ix:
                nm = names[j]
                if nm not in cand:
                    ctx.ok("named_column", False, f"{what}coefficient {nm!r} of term {s} names no combination of its variables and levels")
                    break
                if len(cand[nm]) > 1:
                    ctx.seen("ambiguous_name")
                    continue
                ctx.ok("named_column", nm not in seen and np.allclose(X[:, j], cand[nm][0], rtol=1e-12, atol=1e-12), f"{what}column of coefficient {nm!r} is not the covariate its name states")
                seen.add(nm)
        elif s.get("by") and s["k"] in ("f", "irf"):
            L = lev[s["by"]]
            k = len(ix) // len(L)
            for lv in L:
                mine = [j for j in ix if names[j].endswith(f"_{lv}")]
                other = (sub[s["by"]] != lv).to_numpy()
                if any(m != lv and str(m).endswith(f"_{lv}") for m in L):
                    continue
                if s["k"] == "irf":
                    ctx.ok("irf_names", len(mine) == k, f"{what}{len(mine)} coefficients of {s} name level {lv!r}, {k} expected")
                    continue
                ok = len(mine) > 0 and np.all(X[np.ix_(other, mine)] == 0) and (other.all() or np.any(X[np.ix_(~other, mine)] != 0))
                ctx.ok("named_block", ok, f"{what}columns of coefficients named after level {lv!r} of {s['by']} are not those of that level")
        elif s["k"] == "sub":
            rowsin = (sub["B"] == s["sub"]).to_numpy()
            ctx.ok("named_block", np.all(X[np.ix_(~rowsin, ix)] == 0), f"{what}sub-group smooth of {s['sub']} has entries in other groups")
            for j in ix:
                lv = next((q for q in sorted(set(df["SA"].dropna())) if names[j].endswith(f"_{q}")), None)
                if lv is None:
                    ctx.ok("named_block", False, f"{what}{names[j]} names no level of the sub-group")
                    break
                ctx.ok("named_block", np.all(X[(sub["SA"] != lv).to_numpy(), j] == 0), f"{what}{names[j]} has entries at other levels")
        elif s["k"] == "irf":
            ctx.ok("irf_names", len({names[j] for j in ix}) == len(ix) and all("z" in names[j] for j in ix), f"{what}names of impulse response coefficients {[names[j] for j in ix]}")


def book_of(rng, lev):
    b = {}
    for v, L in lev.items():
        p = rng.permutation(len(L))
        b[v] = {q: int(p[k]) for k, q in enumerate(L)}
    return b


def mem(c, rng, ctx):
    from mssm.src.python.formula import Formula, build_model_matrix, build_penalties, lhs
    from mssm.src.python.terms import i as I
    from mssm.src.python.terms import l, li

    df, lev = make(rng, c)
    T, S = mk_terms(rng, c, df, lev)
    lev = {v: sorted(set(df[v].dropna())) for v in lev}
    book = book_of(rng, lev) if c["code"] else None
    before = df.copy(deep=True)
    use_series = c["series"] or c["irf"]
    nt = len(T)
    F = Formula(lhs("y"), T, df, series_id="series" if use_series else None, codebook=book, print_warn=False)
    judge(F, S, None, df, lev, c, ctx, book)
    uv = used_vars(S)
    okrow = ~df[["y"] + uv].isna().any(axis=1).to_numpy()
    vm, cod = F.get_var_map(), F.get_factor_codings()
    ctx.ok("missing", same(np.asarray(F.NOT_NA_flat).ravel(), okrow) and same(np.asarray(F.get_notNA()).ravel(), okrow), f"{int((np.asarray(F.NOT_NA_flat).ravel() != okrow).sum())} rows wrongly (not) counted as missing")

    def enc(data, v):
        if v in lev:
            return np.array([cod[v][q] if q in cod[v] else np.nan for q in data[v]], dtype=float)
        return data[v].to_numpy(float)
    for v in uv:
        if any(s["k"] == "sub" and s["by"] == v for s in S):
            continue
        ctx.ok("encoded", same(F.cov_flat[:, vm[v]], enc(df, v)), f"encoded column of {v} is not that of the data")
    for s in S:
        if s["k"] == "sub":
            key = f"SA:{s['sub']}"
            inn = (df["B"] == s["sub"]).to_numpy()
            got = F.cov_flat[:, vm[key]]
            mine = [F.get_coding_factors()[key].get(q) for q in got]
            ctx.ok("encoded", all((m == r) if k else (m is None or m == r) for m, r, k in zip(mine, df["SA"], inn)) and key in F.get_subgroup_variables(), f"encoded sub-group column {key}")
    ctx.ok("encoded", same(np.asarray(F.y_flat).ravel(), df["y"].to_numpy()) and same(np.asarray(F.get_depvar()).ravel()[: len(df)], df["y"].to_numpy()), "response is not that of the data")
    ctx.ok("getters", F.get_has_intercept() == any(s["k"] == "i" for s in S) and F.has_ir_terms() == any(s["k"] == "irf" for s in S) and F.get_lhs().variable == "y" and F.get_data().equals(df)
           and [S[q]["k"] for q in F.get_linear_term_idx()] == [s["k"] for s in S if s["k"] in ("i", "l")]
           and [S[q]["k"] for q in F.get_smooth_term_idx()] == [s["k"] for s in S if s["k"] in ("f", "sub")]
           and [S[q]["k"] for q in F.get_random_term_idx()] == [s["k"] for s in S if s["k"] in ("ri", "rs")]
           and [S[q]["k"] for q in F.get_ir_smooth_term_idx()] == [s["k"] for s in S if s["k"] == "irf"]
           and F.get_term_names() == [t.name for t in T] and [t.name for t in F.get_terms()] == [t.name for t in T], "index of terms, intercept or names of terms")
    if use_series:
        ids = df["series"].to_numpy()
        st = np.concatenate([[0], np.flatnonzero(ids[1:] != ids[:-1]) + 1])
        ctx.ok("series", same(np.asarray(F.sid), st) and len(F.y) == len(F.cov) == len(F.NOT_NA) == len(st), f"series start at {list(F.sid)}, data {list(st)}")
        if len(F.y) == len(st):
            for k, (y, cv, na, a, b) in enumerate(zip(F.y, F.cov, F.NOT_NA, st, list(st[1:]) + [len(ids)])):
                ctx.ok("series", same(np.ravel(y), df["y"].to_numpy()[a:b]) and same(cv, F.cov_flat[a:b]) and same(np.ravel(na), okrow[a:b]), f"content of series {k}")
    else:
        ctx.ok("series", F.y is None and F.cov is None and F.sid is None, "series of a formula without series id")
    build_penalties(F)
    X = build_model_matrix(F).toarray()
    rows = df.index[okrow]
    ctx.ok("rows", X.shape[0] == okrow.sum(), f"{X.shape[0]} rows in the model matrix, {okrow.sum()} complete rows")
    if X.shape[0] == okrow.sum():
        names_and_blocks(F, S, df, lev, ctx, X, rows)
    # new data: other rows, other columns order, unknown columns, no response
    new = df.sample(n=min(25, len(df)), random_state=int(rng.integers(1000)))[[v for v in df.columns[::-1] if v != "y"]].copy()
    keep = new.copy(deep=True)
    yf, cf, nf, y, cv, na, sid = F.encode_data(new, prediction=True)
    for v in uv:
        if any(s["k"] == "sub" and s["by"] == v for s in S):
            continue
        ctx.ok("new", same(cf[:, vm[v]], enc(new, v)), f"encoding of new data, {v}")
    ctx.ok("new", yf is None and y is None and nf is None and na is None and cf.shape[0] == len(new), "encoding of new data returns a response or missing rows")
    ctx.ok("pure", df.equals(before) and new.equals(keep) and len(T) == nt and list(df.columns) == list(before.columns), "the data passed to the formula were changed")
    # expansion of interactions
    vs = [["A", "B"], ["A", "x"], ["B", "z", "A"], ["x", "z"], ["A", "B", "x", "z"]][int(rng.integers(5))]
    L = li(list(vs))
    want = [tuple(q) for k in range(1, len(vs) + 1) for q in itertools.combinations(vs, k)]
    ctx.ok("li", sorted(tuple(t.variables) for t in L) == sorted(want) and all(isinstance(t, l) for t in L) and [len(t.variables) for t in L] == sorted(len(t.variables) for t in L), f"li({vs}) gives {[t.variables for t in L]}")
    F2 = Formula(lhs("y"), [I(), *L], df, print_warn=False)
    build_penalties(F2)
    X2 = build_model_matrix(F2).toarray()
    ok2 = ~df[["y"] + vs].isna().any(axis=1).to_numpy()
    names_and_blocks(F2, [{"k": "i"}] + [{"k": "l", "v": t.variables} for t in L], df, lev, ctx, X2, df.index[ok2], "li: ")
    full = [[(v, q) for q in ((lev[v][1:]) if v in lev else [None])] for v in vs]
    k = sum(int(np.prod([len(full[vs.index(v)]) for v in t])) for t in want)
    ctx.ok("li", X2.shape[1] == 1 + k, f"li({vs}) has {X2.shape[1]} columns, {1 + k} expected")


def files(c, rng, ctx):
    from mssm.src.python.formula import Formula, build_model_matrix, build_penalties, lhs

    df, lev = make(rng, c)
    st = rng.bit_generator.state
    T, S = mk_terms(rng, c, df, lev)
    rng.bit_generator.state = st
    T2, _ = mk_terms(rng, c, df, lev)
    lev = {v: sorted(set(df[v].dropna())) for v in lev}
    book = book_of(rng, lev) if c["code"] else None
    dd = tempfile.mkdtemp(prefix="c25_")
    try:
        paths = []
        for k, (_, g) in enumerate(df.groupby("series", sort=False)):
            p = os.path.join(dd, f"f{k}.csv")
            g.to_csv(p, index=False)
            paths.append(p)
        before = [open(p, "rb").read() for p in paths]
        F = Formula(lhs("y"), T, None, series_id="series", codebook=book, print_warn=False, file_paths=paths, file_loading_nc=c["nc"], keep_cov=c["keep"], find_nested=False)
        M = Formula(lhs("y"), T2, df, series_id="series", codebook=book, print_warn=False, find_nested=False)
        judge(F, S, None, df, lev, c, ctx, book, "files: ")
        ctx.ok("files", list(F.coef_names) == list(M.coef_names) and F.get_n_coef() == M.get_n_coef() and F.unpenalized_coef == M.unpenalized_coef, f"coefficients of the formula differ between files and memory: {[a for a in zip(F.coef_names, M.coef_names) if a[0] != a[1]][:4]}")
        ctx.ok("files", all(same(np.asarray(a), np.asarray(b)) for a, b in zip(F.coef_idx_per_term, M.coef_idx_per_term)), "indices of coefficients differ between files and memory")
        ctx.ok("files", all(list(F.get_factor_levels()[v]) == list(M.get_factor_levels()[v]) and F.get_factor_codings()[v] == M.get_factor_codings()[v] for v in M.get_factor_levels()), "levels and codes differ between files and memory")
        ctx.ok("files", str(F.get_var_mins_maxs()) == str(M.get_var_mins_maxs()), "limits differ between files and memory")
        if c["keep"]:
            ctx.ok("files", same(np.ravel(F.y_flat), np.ravel(M.y_flat)) and same(F.cov_flat, M.cov_flat) and same(np.ravel(F.NOT_NA_flat), np.ravel(M.NOT_NA_flat)) and same(np.asarray(F.sid), np.asarray(M.sid)), "encoded data differ between files and memory")
        PF, PM = build_penalties(F), build_penalties(M)
        ctx.ok("files", len(PF) == len(PM) and all(abs(a.S_J_emb - b.S_J_emb).max() < 1e-8 * (1 + abs(b.S_J_emb).max()) for a, b in zip(PF, PM)), "penalties differ between files and memory")
        ctx.ok("pure", all(open(p, "rb").read() == b for p, b in zip(paths, before)) and sorted(os.listdir(dd)) == sorted(os.path.basename(p) for p in paths), "files were changed")
    finally:
        shutil.rmtree(dd, ignore_errors=True)


def disc(c, rng, ctx):
    """clustering of series for approximate derivatives of factor smooths"""
    import scipy as scp

    from mssm.src.python.formula import Formula, lhs
    from mssm.src.python.terms import f, fs, i, l

    ns = int(rng.integers(20, 40))
    rows = []
    for s in range(ns):
        m = int(rng.integers(5, 25))
        rows.append(pd.DataFrame({"series": s, "S": f"s{s:03d}", "G": ["g0", "g1"][s % 2], "H": ["h0", "h1", "h2"][int(rng.integers(3))], "K": ["k0", "k1"][int(rng.integers(2))],
                                  "x": np.sort(rng.uniform(0, 1, m)), "z": rng.normal(), "w": rng.integers(0, 5, m), "y": rng.normal(size=m)}))
    df = pd.concat(rows, ignore_index=True)
    split = [["H", "K"], ["H"], []][c["nsplit"]]
    ad = {"no_disc": ["w"] if rng.random() < 0.7 else [], "excl": ["z"] if rng.random() < 0.4 else [], "split_by": split, "restarts": int(rng.integers(1, 4)), "seed": int(rng.integers(100))}
    if c["stat"]:
        ad["stat"] = {"x": "n_unique"} if rng.random() < 0.5 else {"x": "n"}
    if c["norm"]:
        ad["normalize"] = True
    terms = [i(), f(["w"], nk=4), l(["z"])]
    import copy
    if c["sub"]:
        terms += [fs(["x"], rf="S", nk=4, by_subgroup=["G", g], approx_deriv=copy.deepcopy(ad)) for g in ("g0", "g1")]
    else:
        terms.append(fs(["x"], rf="S", nk=4, approx_deriv=copy.deepcopy(ad)))
    calls = []
    orig = scp.cluster.vq.kmeans2

    def rec(data, k, *a, **kw):
        r = orig(data, k, *a, **kw)
        calls.append((np.array(data), r))
        return r
    scp.cluster.vq.kmeans2 = rec
    try:
        F = Formula(lhs("y"), terms, df, series_id="series", print_warn=False)
    finally:
        scp.cluster.vq.kmeans2 = orig
    # features: per series the number of samples in every bin of every covariate
    vm = F.get_var_map()
    vs = [v for v in F.get_var_types() if v in ("x", "z", "w") and v not in ad["excl"]]
    bins = {}
    for v in vs:
        x = df[v].to_numpy(float)
        bins[v] = x if v in ad["no_disc"] else np.digitize(x, np.linspace(x.min(), x.max(), int(len(np.unique(x)) ** 0.5)))
    exp = []
    groups = [np.ones(len(df), bool)] if not c["sub"] else [(df["G"] == g).to_numpy() for g in ("g0", "g1")]
    for g in groups:
        keys = df.loc[g, split].agg("|".join, axis=1) if split else pd.Series("", index=df.index[g])
        one = []
        for kv in sorted(set(keys)):
            r = np.flatnonzero(g)[(keys == kv).to_numpy()]
            sid = df["series"].to_numpy()[r]
            cols = []
            for v in vs:
                st = ad.get("stat", {}).get(v)
                b = bins[v][r]
                tab = np.array([[np.sum((sid == q) & (b == u)) for u in np.unique(b)] for q in np.unique(sid)], dtype=float)
                if st == "n":
                    tab = tab.sum(axis=1, keepdims=True)
                elif st == "n_unique":
                    tab = (tab > 0).sum(axis=1, keepdims=True).astype(float)
                cols.append(tab)
            t = np.concatenate(cols, axis=1)
            if c["norm"]:
                t = t / np.maximum(np.abs(t).sum(axis=0, keepdims=True), 1e-300)
            one.append((t, np.unique(sid)))
        exp += [one] * 1
    flat = [e for one in exp for _ in range(ad["restarts"]) for e in one]
    if len(calls) == len(flat):
        for (d, _), (t, _) in zip(calls, flat):
            srt = lambda a: a[:, np.lexsort(np.round(a, 10))]  # noqa: E731
            ctx.ok("disc_features", d.shape == t.shape and np.allclose(srt(d), srt(t), rtol=1e-9, atol=1e-9), "features of series to be clustered are not the counts of discretised covariate values")
    else:
        ctx.seen("disc_calls_differ")
    for sti, one in zip(F.discretize, exp):
        D = F.discretize[sti]
        tot = sum(len(s) for _, s in one)
        w = D["clust_weights"]
        gsid = sorted({q for _, s in one for q in s})
        ctx.ok("disc_sets", len(w) == len(D["clust_series"]) and sum(len(q) for q in w) == tot and len(set(np.ravel(D["clust_series"]).tolist())) <= len(gsid) and max(np.ravel(D["clust_series"])) < len(gsid),
               f"clusters of {tot} series: {sum(len(q) for q in w)} weights, {len(w)} weight sets, {len(D['clust_series'])} prototypes")
        ctx.ok("disc_weights", all(np.all((np.asarray(q) > 0) & (np.asarray(q) <= 1 + 1e-12)) and abs(np.max(q) - 1) < 1e-12 for q in w), "weights are not relative to the prototype of the cluster")
