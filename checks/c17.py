"""Fits that state the same model of the same data agree: solver, row order, files, cores, coding of data and response."""
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
import scipy.sparse

from checks.c15 import dropped
from vlib import fit_ref as F
from vlib import gam_ref as G

RULE = ("pairs of fits of random models that differ only in how the same model or data are presented (solver, row order, csv files and loading processes, cores, affine "
        "changes of covariates and response, level names, irrelevant columns and rows, offsets, expanded binomial responses); non-trivial = both fits reported convergence and were compared")
ASSUMPTIONS = ["fits of a pair may stop at slightly different points of a flat restricted likelihood: fitted values are compared relative to their standard errors"]
REQUIRED = ["solver", "order", "files", "files_kept", "loading", "cores", "response", "covariate", "levels", "columns", "narows", "offset", "bernoulli", "rho0", "lhsf", "transform"]
CASE_TIMEOUT = 400
KINDS = REQUIRED


def cases(tier, seed):
    rng = np.random.default_rng([17, seed])
    out = []
    per = 9 if tier == "quick" else 120
    for k in KINDS:
        for j in range(per if k not in ("cores", "loading", "files", "files_kept") else max(4, per // 2)):
            fam = F.FAMS[j % 8]
            if k in ("files", "files_kept", "response", "rho0"):
                fam = "gauss"
            if k == "bernoulli":
                fam = "binomn"
            c = {"kind": k, "seed": int(rng.integers(2**31)), "fam": fam, "method": str(rng.choice(["QR", "Chol"])), "tol": 1e-9}
            if k in ("files", "files_kept"):
                c["nc"] = int(rng.integers(1, 4))
                c["nfiles"] = int(rng.integers(1, 5))
                c["sep"] = bool(rng.random() < 0.4)
            if k == "loading":
                c["nc"] = int(rng.integers(2, 5))
            if k in ("solver", "order", "cores") and rng.random() < 0.3:
                c["offset"] = "array"
            out.append(c)
    return out


def se_of(P, m):
    X = m.get_mmat()
    L = m.lvi
    return np.sqrt(np.maximum(np.asarray((L @ X.T).power(2).sum(axis=0)).ravel() * float(m.scale), 0))


def fitted(m):
    return np.asarray(m.preds[0]).ravel()


def compare(ctx, kind, m1, m2, e1, e2, se, n, msg, dllk=0.0, phi=1.0, reml=True):
    k = 0.05
    ctx.seen(kind)
    ctx.close(kind + "_fit", (e1 - e2) / (se + 0.1 * se.mean() + 1e-6 * (np.std(e1) + 1e-9)), 0, rtol=0, atol=k, msg=f"{msg}: linear predictors differ (in standard errors)")
    ctx.close(kind + "_edf", float(m1.edf), float(m2.edf), rtol=5e-3, atol=0.03, msg=f"{msg}: edf")
    ctx.close(kind + "_scale", float(m1.scale), float(m2.scale) * phi, rtol=2e-3, atol=0, msg=f"{msg}: scale")


def same_coef(ctx, kind, m1, m2, msg, data=None):
    L = m1.lvi
    sd = np.sqrt(np.asarray(L.power(2).sum(axis=0)).ravel() * float(m1.scale))
    a, b = np.asarray(m1.coef).ravel(), np.asarray(m2.coef).ravel()
    if ctx.ok(kind + "_names", list(m1.formulas[0].coef_names) == list(m2.formulas[0].coef_names), f"{msg}: coefficient names differ: {list(zip(m1.formulas[0].coef_names, m2.formulas[0].coef_names))[:8]}"):
        w = np.ones(len(a), bool)
        if data is not None:  # the basis of a null space is only determined up to a rotation
            X1, X2 = (np.asarray(m.predict(None, data, ci=False)[1].todense()) for m in (m1, m2))
            w = np.abs(X1 - X2).max(axis=0) < 1e-7 * (1 + np.abs(X1).max(axis=0))
            ctx.ok(kind + "_cols", w[0] and w.sum() >= 1, f"{msg}: no column of the model matrix agrees")
        ctx.close(kind + "_coef", ((a - b) / (sd + 1e-9))[w], 0, rtol=0, atol=0.1, msg=f"{msg}: coefficients differ (in standard errors)")


def df_only(P):
    return [a for a in P.df.columns if a != "eta"]


def run_case(c, ctx):
    P = F.problem(c)
    k = c["kind"]
    P.kw["max_outer"] = 300
    if k.startswith("files"):  # constraints and parametrisations not supported with files
        P.spec = [{a: (0 if a == "rp" and t.get("te") else b) for a, b in t.items() if a != "const" and not (a == "rp" and not t.get("te"))} for t in P.spec]
    if k == "bernoulli":  # repeating rows changes the constraint, which matters for by-terms without main effect
        P.spec = [t for t in P.spec if t["k"] != "f" or not (t.get("by") or t.get("by_cont") or t.get("binary"))]
        if not any(t["k"] == "f" for t in P.spec):
            P.spec.append({"k": "f", "v": ["x0"], "nk": 8})
    if k == "transform":
        P.df["zz"] = np.random.default_rng(c["seed"] + 2).normal(size=len(P.df))
        P.spec.append({"k": "l", "v": ["zz"]})
    d = P.df
    rng = np.random.default_rng(c["seed"] + 1)
    P.kw.pop("method", None) if k == "solver" else None
    n = len(d)
    m = F.fit(P, method="QR") if k == "solver" else F.fit(P)
    if m.info.code != 0:
        ctx.skip("no convergence reported")
    if dropped(m):
        ctx.skip("dropped")
    se = se_of(P, m)
    e = fitted(m)

    def ok(q):
        if q.info.code != 0:
            ctx.skip("no convergence reported")
        return q

    if k == "solver":
        q = ok(F.fit(P, method="Chol"))
        compare(ctx, k, m, q, e, fitted(q), se, n, "QR and Cholesky")
        same_coef(ctx, k, m, q, "QR and Cholesky")
    elif k == "order":
        o = rng.permutation(n)
        dd = d.iloc[o].reset_index(drop=True)
        kw = {}
        if P.offset is not None and not np.isscalar(P.offset):
            kw["offset"] = P.offset[o]
        fam = F.mk_family(P.fam, None if P.nb is None else P.nb[o], P.used[o])
        q = ok(F.fit(P, df=dd, family=fam, **kw))
        back = np.full(n, np.nan)
        back[o[P.used[o]]] = fitted(q)
        compare(ctx, k, m, q, e, back[P.used], se, n, "row order")
    elif k in ("files", "files_kept"):
        q, yy = from_files(P, c, rng)
        ok(q)
        compare(ctx, k, m, q, e, fitted(q), se, n, f"{c['nfiles']} files, {c['nc']} processes")
        same_coef(ctx, k, m, q, f"{c['nfiles']} files, {c['nc']} processes", d)
        ctx.close("files_pred", np.asarray(q.predict(None, d, ci=False)[0]).ravel()[P.used], fitted(q), rtol=1e-6, atol=1e-6, msg="prediction of a model estimated from files for the data in the files")
    elif k == "loading":
        spec = [dict(t) for t in P.spec]
        q = ok(F.fit(P, form_kw={"file_loading_nc": c["nc"]}))
        compare(ctx, k, m, q, e, fitted(q), se, n, f"model matrix built by {c['nc']} processes")
        same_coef(ctx, k, m, q, f"model matrix built by {c['nc']} processes")
    elif k == "transform":
        j = list(m.formulas[0].coef_names).index("zz")
        dd = d.copy()
        dd["zz"] = d["zz"] / 2
        calls = []

        def double(X):
            calls.append(X.shape)
            s = np.ones(X.shape[1])
            s[j] = 2
            Y = scipy.sparse.csc_array(X @ scipy.sparse.diags_array(s))
            Y.sort_indices()
            return Y

        q = ok(F.fit(P, df=dd, transform_X=double))
        ctx.ok(k + "_calls", len(calls) >= 1 and calls[0][1] == len(m.coef), f"transform was called with matrices {calls}")
        ctx.close(k + "_mmat", q.get_mmat().toarray(), m.get_mmat().toarray(), rtol=1e-10, atol=1e-10, msg="transformed model matrix")
        compare(ctx, k, m, q, e, fitted(q), se, n, "column doubled by a function of the model matrix")
        same_coef(ctx, k, m, q, "column doubled by a function of the model matrix")
    elif k == "cores":
        q = ok(F.fit(P, n_cores=4))
        compare(ctx, k, m, q, e, fitted(q), se, n, "4 cores")
        same_coef(ctx, k, m, q, "4 cores")
    elif k == "response":
        a, b = float(rng.choice([0.01, 3.7, 250.0])), float(rng.normal(0, 10))
        dd = d.copy()
        dd["y"] = dd["y"] * a + b
        q = ok(F.fit(P, df=dd))
        compare(ctx, k, m, q, e, (fitted(q) - b) / a, se, n, f"response times {a} plus {b}", phi=1 / a**2)
    elif k == "covariate":
        dd = d.copy()
        for v in ("x0", "x1", "x2", "x3"):
            dd[v] = dd[v] * float(rng.choice([0.5, 2.0, 8.0])) + float(rng.integers(-4, 4))
        q = ok(F.fit(P, df=dd))
        compare(ctx, k, m, q, e, fitted(q), se, n, "affine change of covariates")
    elif k == "levels":
        dd = d.copy()
        for v in ("fac", "grp"):
            lv = sorted(set(d[v]))
            dd[v] = d[v].map({a: f"{j:02d}_new {j * 7 % 5}" for j, a in enumerate(lv)})
        q = ok(F.fit(P, df=dd))
        compare(ctx, k, m, q, e, fitted(q), se, n, "order-preserving renaming of levels")
    elif k == "columns":
        cols = list(rng.permutation(df_only(P)))
        dd = d[cols].copy()
        dd.insert(0, "junk", rng.choice(["u", "v"], n))
        dd["junk2"] = np.nan
        dd.index = rng.permutation(np.arange(10, 10 + n))
        q = ok(F.fit(P, df=dd))
        compare(ctx, k, m, q, e, fitted(q), se, n, "other columns, column order and index")
        same_coef(ctx, k, m, q, "other columns, column order and index")
    elif k == "narows":
        ex = d.iloc[rng.integers(0, n, 40)].copy()
        ex["y"] = np.nan
        pos = np.sort(rng.integers(0, n, 40))
        parts, last, orig = [], 0, []
        dd = pd.concat([d, ex], ignore_index=True)
        o = rng.permutation(len(dd)) if P.rho is None else np.arange(len(dd))
        o = o[np.argsort(np.where(o < n, o, rng.integers(0, n, len(o)) + 0.5), kind="stable")]
        dd = dd.iloc[o].reset_index(drop=True)
        kw = {}
        q = ok(F.fit(P, df=dd, family=F.mk_family(P.fam, P.nb, P.used, P.fixscale)))
        compare(ctx, k, m, q, e, fitted(q), se, n, "rows without response added")
    elif k == "offset":
        cst = 0.7
        q = ok(F.fit(P, offset=cst))
        if P.fam == "gauss":
            dd = d.copy()
            dd["y"] = dd["y"] - cst
            r = ok(F.fit(P, df=dd))
            compare(ctx, k, q, r, fitted(q), fitted(r) + cst, se, n, "offset and response reduced by it")
        compare(ctx, k, m, q, e, fitted(q), se, n, "constant offset and no offset, models with intercept")
        q = ok(F.fit(P, offset=np.full((n, 1), cst)))
        compare(ctx, k, m, q, e, fitted(q), se, n, "constant array offset and no offset, models with intercept")
    elif k == "bernoulli":
        u = P.used
        idx, y1 = [], []
        for r_ in np.where(u)[0]:
            N = int(P.nb[r_])
            K = int(round(d["y"].iloc[r_] * N))
            idx += [r_] * N
            y1 += [1.0] * K + [0.0] * (N - K)
        dd = d.iloc[idx].reset_index(drop=True)
        dd["y"] = y1
        lims_same = all(abs(dd[v].min() - d[v].min()) < 1e-12 and abs(dd[v].max() - d[v].max()) < 1e-12 for v in ("x0", "x1", "x2", "x3"))
        if not lims_same:
            ctx.skip("other data range")
        q = ok(F.fit(P, df=dd, family=F.mk_family("binom1")))
        back = pd.Series(fitted(q)).groupby(np.array(idx)).first().to_numpy()
        compare(ctx, k, m, q, e, back, se, n, "counts out of n and single trials")
    elif k == "rho0":
        q = ok(F.fit(P, rho=0.0))
        compare(ctx, k, m, q, e, fitted(q), se, n, "rho=0 and no ar1 model")
    elif k == "lhsf":
        from mssm.models import GAMM, Formula, lhs
        dd = d.copy()
        g, gi = (np.log, np.exp) if rng.random() < 0.5 else (lambda v: v * 2 - 1, lambda v: (v + 1) / 2)
        dd["y"] = gi(dd["y"])
        form = Formula(lhs("y", f=g), [G.mk_term(t) for t in P.spec], data=dd, print_warn=False, find_nested=False)
        q = GAMM(form, F.mk_family(P.fam, P.nb, P.used))
        q.fit(progress_bar=False, n_cores=1, **P.kw)
        ok(q)
        compare(ctx, k, m, q, e, fitted(q), se, n, "function of the response and transformed column")
        ctx.close("lhsf_llk", float(np.squeeze(q.get_llk(False))), float(np.squeeze(m.get_llk(False))), rtol=1e-6, atol=0.02, msg="log-likelihood with a function of the response")
    ctx.sample = {"kind": k, "fam": P.fam, "edf": float(m.edf), "iter": int(m.info.iter)}


def from_files(P, c, rng):
    from mssm.models import GAMM, Formula, lhs

    D = tempfile.mkdtemp(prefix="mssmv_files_")
    cwd = os.getcwd()
    try:
        os.chdir(D)
        cuts = np.array_split(np.arange(len(P.df)), c["nfiles"])
        paths = []
        cols = df_only(P)
        for j, ix in enumerate(cuts):
            os.makedirs(f"{D}/d{j}")
            pth = f"{D}/d{j}/part{j}.csv"
            P.df.iloc[ix][cols].to_csv(pth, index=False, float_format="%.17g", sep=";" if c["sep"] else ",")
            paths.append(pth)
        kw = {"header": 0, "index_col": False}
        if c["sep"]:
            kw["sep"] = ";"
        form = Formula(lhs("y"), [G.mk_term(t) for t in P.spec], data=None, print_warn=False, find_nested=False, keep_cov=c["kind"] == "files_kept",
                       file_paths=paths, file_loading_nc=c["nc"], file_loading_kwargs=kw)
        m = GAMM(form, F.mk_family("gauss"))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fk = {a: b for a, b in P.kw.items() if a != "method"}
            m.fit(progress_bar=False, n_cores=c["nc"], method="Chol", **fk)
        return m, None
    finally:
        os.chdir(cwd)
        shutil.rmtree(D, ignore_errors=True)
