"""Random GAM specifications, data for them, and an independent account of what their
model matrices and penalties have to be (dense numpy/scipy, no code of the library)."""

import numpy as np
import pandas as pd
from scipy.interpolate import BSpline
import scipy.linalg as sl


# ------------------------------------------------------------------ data
def make_data(seed, n, nlev=3, ngrp=6, na=0.0, discrete=False, series=0):
    rng = np.random.default_rng(seed)
    x0 = rng.uniform(0, 1, n)
    x1 = rng.beta(2, 2, n) * 4 - 2
    x2 = rng.normal(0, 1, n) * 10 + 50
    x2 = np.clip(x2, 30, 70)
    x3 = np.round(rng.uniform(0, 20, n)) / 2
    if discrete:
        x0 = np.round(x0, 2)
    z = rng.normal(0, 1, n)
    names = np.array(["lv_" + c for c in "cabed"][:nlev])
    fac = names[np.r_[np.arange(nlev), rng.integers(0, nlev, n - nlev)]]
    gn = np.array([f"g{(7 * k) % 23:02d}" for k in range(ngrp)])
    grp = gn[np.r_[np.arange(ngrp), rng.integers(0, ngrp, n - ngrp)]]
    bn = np.array(["yes", "no"])[rng.integers(0, 2, n)]
    bn[:2] = ["yes", "no"]
    eff = dict(zip(names, rng.normal(0, 0.6, nlev)))
    geff = dict(zip(gn, rng.normal(0, 0.5, ngrp)))
    eta = (np.sin(5 * x0) + 0.3 * x1**2 + 0.02 * (x2 - 50) + 0.5 * np.cos(x3 / 2) + 0.3 * z * x1
           + np.array([eff[a] for a in fac]) * (1 + x0) + np.array([geff[a] for a in grp]) + 0.4 * (bn == "yes") * x0)
    df = pd.DataFrame({"x0": x0, "x1": x1, "x2": x2, "x3": x3, "z": z, "fac": fac, "grp": grp, "bin": bn, "eta": eta})
    df["y"] = eta + rng.normal(0, 0.5, n)
    if series:
        df["time"] = np.tile(np.arange(n // series), series)[:n].astype(float)
        df["series"] = np.repeat([f"s{k}" for k in range(series)], n // series)[:n]
    if na:
        k = rng.random(n) < na
        k[:8] = False
        df.loc[k, "y"] = np.nan
    return df


# ------------------------------------------------------------------ spec -> library objects
def mk_term(t):
    from mssm.models import f, fs, i, l, ri, rs
    from mssm.src.python.custom_types import ConstType
    from mssm.src.python.penalties import DifferencePenalty, IdentityPenalty
    from mssm.src.python.custom_types import PenType

    k = t["k"]
    if k == "i":
        return i()
    if k == "l":
        return l(list(t["v"]))
    if k == "ri":
        return ri(t["v"][0], **({"id": t["id"]} if t.get("id") is not None else {}))
    if k == "rs":
        return rs(list(t["v"]), by=t.get("by"), **({"id": t["id"]} if t.get("id") is not None else {}))
    kw = {}
    if t.get("nk") is not None:
        kw["nk"] = t["nk"]
    if t.get("deg") is not None:
        kw["basis_kwargs"] = {"deg": t["deg"]}
    if t.get("rp") is not None:
        kw["rp"] = t["rp"]
    if t.get("by_cont"):
        kw["by_cont"] = t["by_cont"]
    if k == "fs":
        return fs(list(t["v"]), rf=t["by"], **({"m": t["m"]} if "m" in t else {}), **kw)
    if t.get("pen"):
        kw["penalty"] = [DifferencePenalty() if p[0] == "d" else IdentityPenalty(PenType.IDENTITY) for p in t["pen"]]
        kw["pen_kwargs"] = [{"m": p[1]} if p[0] == "d" else {} for p in t["pen"]]
    if t.get("const"):
        kw["constraint"] = {"QR": ConstType.QR, "DROP": ConstType.DROP, "DIFF": ConstType.DIFF}[t["const"]]
    for key in ("by", "id", "te", "identifiable", "scale_te", "is_penalized", "penalize_null"):
        if t.get(key) is not None:
            kw[key] = t[key]
    if t.get("binary"):
        kw["binary"] = tuple(t["binary"])
    return f(list(t["v"]), **kw)


def mk_formula(spec, df, lhs_var="y", lhs_f=None, **kw):
    from mssm.models import Formula, lhs

    return Formula(lhs(lhs_var, lhs_f) if lhs_f is not None else lhs(lhs_var), [mk_term(t) for t in spec], data=df, print_warn=False, **kw)


# ------------------------------------------------------------------ reference pieces
def bspl(x, K, lo, hi, deg=3):
    """K B-splines of degree deg on equally spaced knots, the inner ones spanning [lo, hi]."""
    nd = K - deg
    h = (hi - lo) / nd
    kn = lo + h * np.arange(-deg, nd + deg + 1)
    x = np.asarray(x, float)
    out = np.zeros((len(x), K))
    for j in range(K):
        b = BSpline.basis_element(kn[j:j + deg + 2], extrapolate=False)(x)
        out[:, j] = np.nan_to_num(b)
    return out


def rowkron(A, B):
    return (A[:, :, None] * B[:, None, :]).reshape(len(A), -1)


def dpen(K, m):
    D = np.eye(K)
    for _ in range(m):
        D = D[1:] - D[:-1]
    return D.T @ D


def null_of(c):
    c = np.asarray(c, float).reshape(1, -1)
    return sl.null_space(c)


def kron_all(ms):
    M = np.ones((1, 1))
    for m in ms:
        M = np.kron(M, m)
    return M


class SmoothRef:
    """What a smooth term has to be: raw basis, constrained dimension, quadratic penalties in raw coefficients."""

    def __init__(self, t, df, used, lims):
        self.t = t
        vs = t["v"]
        self.nv = nv = len(vs)
        self.fs = t["k"] == "fs"
        self.te = bool(t.get("te", False))
        ident = (not self.fs) and t.get("identifiable", True) and not t.get("binary")
        bump = (t.get("binary") is not None and t.get("identifiable", True) and not self.te) or self.fs
        nk = t.get("nk")
        if nk is None:
            nk = 9 if (nv == 1 or self.fs) else (5 if self.te else 4)
        nks = list(nk) if isinstance(nk, (list, tuple)) else [nk] * nv
        if bump:
            nks = [k + 1 for k in nks]
        self.nks = nks
        self.ident = ident
        self.rp = t.get("rp")
        if self.rp is None:
            self.rp = 1 if self.fs else (0 if nv == 1 else 2)
        self.const = t.get("const", "QR")
        deg = t.get("deg") or 3
        self.deg = deg
        self.Kraw = [k + (1 if ident and not self.te else 0) for k in nks]
        self.lims = [lims[v] for v in vs]
        self.vs = vs
        self.n1 = int(np.prod(nks)) - (1 if self.te and ident else 0)  # coefficients of one level
        self.raw_used = self.raw(df.loc[used])
        pens = t.get("pen") or [("d", t["m"] if "m" in t else (1 if self.fs else 2))]
        self.pens = pens
        # marginal pieces
        Bm = self.marg(df.loc[used])
        G, Tm, Zs = [], [], []
        for v in range(nv):
            K = self.Kraw[v]
            Z = np.eye(K)
            if ident and not self.te:
                if self.const == "QR":
                    Z = null_of(Bm[v].sum(0))
                elif self.const == "DROP":
                    Z = np.delete(np.eye(K), K // 2, axis=1)
                else:
                    Z = None
            Zs.append(Z)
            if self.rp == 2 and nv > 1:
                A = bspl(np.linspace(self.lims[v][0], self.lims[v][1], nks[v]), K, *self.lims[v], deg)
                G.append(A.T @ A)
                Tm.append(Z @ np.linalg.inv(A @ Z))
            else:
                G.append(np.eye(K))
                Tm.append(Z)
        self.marg_sub = Zs
        self.P = []  # raw quadratic forms, in the library's order
        for p in pens:
            for v in range(nv):
                Pm = dpen(self.Kraw[v], p[1]) if p[0] == "d" else None
                if nv == 1:
                    self.P.append((p, v, Pm))
                else:
                    if Pm is None:
                        self.P.append((p, v, None))
                        continue
                    sc = 1.0
                    if t.get("scale_te", True) and Tm[v] is not None:
                        sc = sl.eigvalsh(Tm[v].T @ Pm @ Tm[v])[-1]
                    self.P.append((p, v, kron_all([Pm / sc if u == v else G[u] for u in range(nv)])))

    def marg(self, df):
        return [bspl(df[v].to_numpy(), self.Kraw[k], *self.lims[k], self.deg) for k, v in enumerate(self.vs)]

    def raw(self, df):
        B = None
        for b in self.marg(df):
            B = b if B is None else rowkron(B, b)
        return B

    def blocks(self, df, levels):
        """Row weights of each coefficient block."""
        t = self.t
        w = np.ones(len(df))
        if t.get("by_cont"):
            w = w * df[t["by_cont"]].to_numpy()
        if t.get("binary"):
            return [w * (df[t["binary"][0]].to_numpy() == t["binary"][1])]
        if t.get("by"):
            return [w * (df[t["by"]].to_numpy() == a) for a in levels[t["by"]]]
        return [w]


def linear_cols(variables, df, dummy, levels):
    """Columns of a (multi-way) linear term: products of covariates and level indicators,
    later variables varying fastest, first level left out when `dummy`."""
    cols, names = [np.ones(len(df))], [""]
    for v in variables:
        if v in levels:
            new, nn = [], []
            for c, a in zip(cols, names):
                for lv in levels[v][1 if dummy else 0:]:
                    new.append(c * (df[v].to_numpy() == lv))
                    nn.append(a + f"_{v}_{lv}")
            cols, names = new, nn
        else:
            cols = [c * df[v].to_numpy() for c in cols]
            names = [a + f"_{v}" for a in names]
    return np.column_stack(cols), [a[1:] for a in names]


def layout(spec, df, used, levels, lims):
    """Terms in the order of their coefficients: linear, smooth, random."""
    d = df.loc[used]
    out = []
    const = any(t["k"] == "i" for t in spec)
    for ti, t in enumerate(spec):
        if t["k"] == "i":
            out.append({"ti": ti, "t": t, "X": np.ones((len(d), 1)), "names": ["Intercept"]})
        elif t["k"] == "l":
            X, nm = linear_cols(t["v"], d, const, levels)
            out.append({"ti": ti, "t": t, "X": X, "names": nm})
            if any(v in levels for v in t["v"]):
                const = True
    for ti, t in enumerate(spec):
        if t["k"] in ("f", "fs"):
            r = SmoothRef(t, df, used, lims)
            out.append({"ti": ti, "t": t, "ref": r, "w": r.blocks(d, levels)})
    for ti, t in enumerate(spec):
        if t["k"] == "ri":
            X, nm = linear_cols(t["v"], d, False, levels)
            out.append({"ti": ti, "t": t, "X": X, "names": None})
        elif t["k"] == "rs":
            X, _ = linear_cols(t["v"], d, False, levels)
            if t.get("by"):
                X = np.hstack([X * (d[t["by"]].to_numpy() == a)[:, None] for a in levels[t["by"]]])
            out.append({"ti": ti, "t": t, "X": X, "names": None})
    return out


# ------------------------------------------------------------------ random specs
def rand_smooth(rng, used_ids):
    v = ["x0", "x1", "x2", "x3"]
    u = rng.random()
    if u < 0.5:
        t = {"k": "f", "v": [str(rng.choice(v))]}
        if rng.random() < 0.6:
            t["nk"] = int(rng.integers(4, 14))
        if rng.random() < 0.3:
            t["deg"] = int(rng.choice([1, 2, 3, 4]))
            t["nk"] = max(t.get("nk", 9), t["deg"] + 3)
        t["const"] = str(rng.choice(["QR", "QR", "QR", "DROP", "DIFF"]))
        q = rng.random()
        if q < 0.25:
            t["by"] = "fac"
            if rng.random() < 0.5:
                t["id"] = 1 + len(used_ids) * 10
        elif q < 0.35:
            t["binary"] = ["bin", "yes"]
        elif q < 0.5 and rng.random() < 0.8:
            t["id"] = 7
            t["nk"] = 7
            t.pop("deg", None)
        if rng.random() < 0.2:
            t["by_cont"] = "z"
        if rng.random() < 0.25:
            t["rp"] = 1
        elif rng.random() < 0.3 and t.get("id") != 7:
            m = int(rng.choice([1, 2, 3]))
            t["pen"] = [["d", m]]
            if rng.random() < 0.4:
                t["pen"].append(["d", 1 + m % 3])
        if rng.random() < 0.3 and (not t.get("pen") or (len(t["pen"]) == 1 and t["pen"][0][1] > 1)) and t.get("id") != 7:
            t["penalize_null"] = True
        if rng.random() < 0.1:
            t["identifiable"] = False
    elif u < 0.85:
        nv = 2 if rng.random() < 0.85 else 3
        t = {"k": "f", "v": [str(a) for a in rng.permutation(v)[:nv]], "te": bool(rng.random() < 0.6)}
        if rng.random() < 0.5:
            t["nk"] = [int(a) for a in rng.integers(4, 7 if nv == 2 else 5, nv)]
        t["rp"] = int(rng.choice([0, 2]))
        if rng.random() < 0.3:
            t["scale_te"] = False
        q = rng.random()
        if q < 0.25:
            t["by"] = "fac" if nv == 2 else "bin"
            if rng.random() < 0.5:
                t["id"] = 1 + len(used_ids) * 10
        elif q < 0.35 and not isinstance(t.get("nk"), list):
            t["nk"] = 5
            t["binary"] = ["bin", "no"]
        if rng.random() < 0.2:
            t["by_cont"] = "z"
        if rng.random() < 0.3:
            t["penalize_null"] = True
        if t["te"] and rng.random() < 0.3:
            t["const"] = str(rng.choice(["DROP", "DIFF"])) if t["rp"] == 0 else "DROP"
        elif not t["te"] and t["rp"] == 0 and rng.random() < 0.2:
            t["const"] = "DROP"
        if rng.random() < 0.2:
            t["pen"] = [["d", 2 if t.get("penalize_null") else int(rng.choice([1, 2]))]]
    else:
        t = {"k": "fs", "v": [str(rng.choice(v))], "by": "grp"}
        if rng.random() < 0.5:
            t["nk"] = int(rng.integers(4, 10))
        if rng.random() < 0.4:
            t["m"] = int(rng.choice([1, 2]))
        if rng.random() < 0.2:
            t["by_cont"] = "z"
    if t.get("id") is not None:
        used_ids.append(t["id"])
    return t


def rand_spec(rng, max_smooth=3):
    spec = []
    if rng.random() < 0.85:
        spec.append({"k": "i"})
    for _ in range(int(rng.integers(0, 3))):
        c = ["z", "fac", "bin", "x1"]
        nv = int(rng.choice([1, 1, 2, 3]))
        spec.append({"k": "l", "v": [str(a) for a in rng.permutation(c)[:nv]]})
    ids = []
    sm = [rand_smooth(rng, ids) for _ in range(int(rng.integers(1, max_smooth + 1)))]
    spec += sm
    if rng.random() < 0.35:
        spec.append({"k": "ri", "v": ["grp"]})
    if rng.random() < 0.35:
        t = {"k": "rs", "v": [["x1"], ["fac"], ["z", "bin"], ["z"]][int(rng.integers(4))]}
        if rng.random() < 0.6:
            t["by"] = "grp"
            if rng.random() < 0.4:
                t["id"] = 500
        spec.append(t)
    if rng.random() < 0.4:  # order in the list does not matter beyond the kinds of terms
        spec = [spec[k] for k in rng.permutation(len(spec))]
    return spec
