"""Reference oracles, written from the documentation and textbook definitions.

Nothing here imports diff_diff.  Linear algebra goes through explicit
dummy-variable designs and SVD/pinv so that it shares no code path with the
library (which demeans and uses QR / gelsd).
"""
import numpy as np
import pandas as pd
from scipy import stats


# ---------------------------------------------------------------- regression
def ols(X, y):
    """Least squares on a full-column-rank design after column scaling (QR)."""
    X = np.asarray(X, float)
    y = np.asarray(y, float)
    s = np.sqrt((X ** 2).sum(0))
    s[s == 0] = 1.0
    Q, R = np.linalg.qr(X / s)
    try:
        b = np.linalg.solve(R, Q.T @ y) / s
    except np.linalg.LinAlgError:          # rank-deficient design: callers look at rank_of first or discard
        b = np.linalg.lstsq(X / s, y, rcond=None)[0] / s
    return b, y - X @ b


def rank_of(X):
    X = np.asarray(X, float)
    s = np.sqrt((X ** 2).sum(0))
    s[s == 0] = 1.0
    return np.linalg.matrix_rank(X / s, tol=1e-9 * max(X.shape))


def vcov(X, e, kind="hc1", cluster=None):
    """homo / hc1 / cluster covariance with documented small-sample factors."""
    X = np.asarray(X, float)
    n, k = X.shape
    s = np.sqrt((X ** 2).sum(0))
    s[s == 0] = 1.0
    Xs = X / s
    Q, R = np.linalg.qr(Xs)
    Ri = np.linalg.inv(R)
    bread = Ri @ Ri.T
    if kind == "homo":
        V = (e @ e) / (n - k) * bread
    elif kind == "hc1":
        U = Xs * e[:, None]
        V = n / (n - k) * bread @ (U.T @ U) @ bread
    else:
        codes = pd.factorize(np.asarray(cluster))[0]
        G = codes.max() + 1
        U = Xs * e[:, None]
        S = np.zeros((G, k))
        np.add.at(S, codes, U)
        V = (G / (G - 1)) * ((n - 1) / (n - k)) * bread @ (S.T @ S) @ bread
    return V / np.outer(s, s)


def dummies(v, drop_first=True):
    codes, u = pd.factorize(np.asarray(v), sort=True)
    M = np.zeros((len(codes), len(u)))
    M[np.arange(len(codes)), codes] = 1
    return M[:, 1:] if drop_first else M


def lsdv(df, y, regs, fes):
    """OLS of y on regs (list of arrays) plus full dummy sets, coefficients of regs
    via partialling out with an orthonormal basis of the dummy space."""
    Z = np.column_stack([np.ones(len(df))] + [dummies(df[f]) for f in fes])
    U, sv, _ = np.linalg.svd(Z, full_matrices=False)
    U = U[:, sv > 1e-9 * sv[0]]
    res = lambda v: v - U @ (U.T @ v)
    yr = res(np.asarray(y, float))
    Xr = np.column_stack([res(np.asarray(r, float)) for r in regs])
    b, e = ols(Xr, yr)
    return b, e, Xr, U.shape[1]


# ---------------------------------------------------------------- inference
def p_two_sided(t, df=None):
    if df is None:
        return 2 * stats.norm.sf(abs(t))
    return 2 * stats.t.sf(abs(t), df)


def crit(alpha, df=None):
    return stats.norm.ppf(1 - alpha / 2) if df is None else stats.t.ppf(1 - alpha / 2, df)


# ---------------------------------------------------------------- staggered
def is_never(g):
    return (g == 0) | np.isinf(g)


def wide(df, unit="unit", time="time", y="y"):
    w = df.pivot(index=unit, columns=time, values=y)
    return w


def cs_cells(df, control="never_treated", base="varying", anticipation=0,
             unit="unit", time="time", y="y", first="first_treat"):
    """All identified ATT(g,t) without covariates (unbalanced: pairwise complete)."""
    w = wide(df, unit, time, y)
    g = df.groupby(unit)[first].first().reindex(w.index).astype(float).to_numpy()
    never = is_never(g)
    times = list(w.columns)
    W = w.to_numpy(float)
    out = {}
    for c in sorted(set(g[~never])):
        for ti, t in enumerate(times):
            post = t >= c - anticipation
            if base == "universal":
                b = c - 1 - anticipation
                if t == b:
                    continue
            elif post:
                b = c - 1 - anticipation
            else:
                b = t - 1
            yield_b = times.index(b) if b in times else None
            if yield_b is None:
                continue
            d = W[:, ti] - W[:, yield_b]
            tr = (g == c) & ~np.isnan(d)
            if control == "never_treated":
                co = never & ~np.isnan(d)
            else:
                co = (never | ((g > max(t, b) + anticipation) & (g != c))) & ~np.isnan(d)
            if tr.sum() == 0 or co.sum() == 0:
                continue
            out[(c, t)] = dict(att=d[tr].mean() - d[co].mean(), nt=int(tr.sum()), nc=int(co.sum()),
                               tr=tr, co=co, d=d, base=b)
    return out, w.index.to_numpy(), g


# ---------------------------------------------------------------- simplex QP
def proj_simplex(v):
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - 1
    r = np.nonzero(u - c / (np.arange(len(v)) + 1) > 0)[0][-1]
    return np.maximum(v - c[r] / (r + 1), 0)


def simplex_qp(A, b, ridge=0.0, iters=20000, tol=1e-14):
    """argmin ||b - A w||^2 + ridge*||w||^2 on the simplex (accelerated projected gradient)."""
    n = A.shape[1]
    H = A.T @ A + ridge * np.eye(n)
    f = A.T @ b
    L = np.linalg.norm(H, 2) + 1e-12
    w = np.full(n, 1.0 / n)
    z, t = w.copy(), 1.0
    for _ in range(iters):
        wn = proj_simplex(z - (H @ z - f) / L)
        if (z - wn) @ (wn - w) > 0:
            t = 1.0
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        z = wn + (t - 1) / tn * (wn - w)
        if np.abs(wn - w).max() < tol:
            w = wn
            break
        w, t = wn, tn
    return w


# ---------------------------------------------------------------- coherence monitors
def inference(mon, name, est, se, t, p, ci, alpha, df=None, msg="", sym=True):
    """estimate, SE, t, p and normal/t interval agree; degenerate SE never yields finite inference."""
    if se is None or not np.isfinite(se) or se < 0:
        mon.check(name, not np.isfinite(t) and not np.isfinite(p) and not np.isfinite(ci[0]) and not np.isfinite(ci[1]),
                  f"{msg}: se={se} but t={t} p={p} ci={ci}", key=name + ":undefined-se")
        return
    if se <= 1e-12 * max(abs(est), 1e-300) or se == 0:
        mon.check(name, not (np.isfinite(t) and t != 0 and abs(t) < 1e10),
                  f"{msg}: se={se} but finite t={t}", key=name + ":zero-se")
        return
    mon.close(name, t, est / se, rtol=1e-7, atol=1e-10, msg=f"{msg}: t vs est/se ({est}/{se})")
    if df is not None and df <= 0:
        return
    want = p_two_sided(est / se, df)
    mon.close(name, p, want, rtol=1e-6, atol=1e-12, msg=f"{msg}: p-value, t={t} df={df}")
    q = crit(alpha, df)
    mon.close(name, [ci[0], ci[1]], [est - q * se, est + q * se], rtol=1e-7, atol=1e-8 * q * se, scale=abs(est),
              msg=f"{msg}: interval alpha={alpha} df={df}")


def stars(p):
    if p is None or np.isnan(p):
        return ""
    return "***" if p < 0.001 else "**" if p < 0.01 else "*" if p < 0.05 else "." if p < 0.1 else ""


def relayout(rng, df):
    """Shuffle rows, change the index, add junk columns, reorder columns (values untouched)."""
    d = df.iloc[rng.permutation(len(df))].copy()
    style = int(rng.integers(5))
    n = len(d)
    if style == 0:
        d = d.reset_index(drop=True)
    elif style == 1:
        d.index = [f"r{i}" for i in rng.permutation(n)]
    elif style == 2:
        d.index = rng.integers(0, max(2, n // 3), n)          # duplicated labels
    elif style == 3:
        d.index = pd.date_range("2001-01-01", periods=n)[::-1]
    d["junk_str"] = [f"j{int(v)}" for v in rng.integers(0, 5, n)]
    d["junk_nan"] = np.where(rng.random(n) < 0.5, np.nan, 1.0)
    return d[[d.columns[i] for i in rng.permutation(d.shape[1])]]


# ---------------------------------------------------------------- covariate adjustment
def logit(X, D, iters=100):
    return logit_fit(X, D, X, iters)


def logit_fit(X, D, Xnew, iters=100):
    """Logistic maximum likelihood by Newton steps on standardised columns; probabilities at Xnew, None if it does not converge."""
    X = np.asarray(X, float)
    sd = X.std(0)
    keep = sd > 1e-10 * (1 + np.abs(X).max(0))
    Z = (X[:, keep] - X[:, keep].mean(0)) / sd[keep]
    Zn = (np.asarray(Xnew, float)[:, keep] - X[:, keep].mean(0)) / sd[keep]
    Z = np.column_stack([np.ones(len(Z)), Z])
    Zn = np.column_stack([np.ones(len(Zn)), Zn])
    b = np.zeros(Z.shape[1])
    for _ in range(iters):
        p = 1 / (1 + np.exp(-np.clip(Z @ b, -30, 30)))
        g = Z.T @ (D - p)
        if np.abs(g).max() < 1e-10 * len(D):
            return 1 / (1 + np.exp(-np.clip(Zn @ b, -30, 30)))
        H = Z.T @ (Z * (p * (1 - p))[:, None])
        if np.linalg.cond(H) > 1e10:
            return None
        step = np.linalg.solve(H, g)
        b = b + step / max(1.0, np.abs(step).max())
    return None


def cs_covariate(method, dt, dc, Xt, Xc):
    """(att, se) of the outcome-regression / IPW / doubly-robust 2x2 contrast, or None if not well determined."""
    nt, nc = len(dt), len(dc)
    A = np.column_stack([np.ones(nc), Xc])
    if method in ("reg", "dr") and (nc < A.shape[1] + 1 or rank_of(A) < A.shape[1]):
        return None
    if method in ("ipw", "dr"):
        D = np.r_[np.ones(nt), np.zeros(nc)]
        p = logit(np.vstack([Xt, Xc]), D)
        if p is None or p.min() < 1e-6 or p.max() > 1 - 1e-6:
            return None
        pc = np.clip(p[nt:], 0.01, 0.99)
        w = pc / (1 - pc)
    v = lambda x: np.var(x, ddof=1) if len(x) > 1 else 0.0
    if method == "reg":
        b, e = ols(A, dc)
        B = np.column_stack([np.ones(nt), Xt])
        r = dt - B @ b
        # the prediction at the treated mean: sandwich variance of x_bar'b with a small-sample factor
        s = np.linalg.norm(A, axis=0)
        x = np.linalg.solve((A / s).T @ (A / s), B.mean(0) / s)
        return r.mean(), np.sqrt(v(r) / nt + nc / (nc - A.shape[1]) * (((A / s) @ x * e) ** 2).sum())
    if method == "ipw":
        w = w / w.sum()
        m = w @ dc
        # M-estimation with the logit score stacked on top: att = mean(dt) - sum w(g) dc
        X = np.column_stack([np.ones(nt + nc), np.vstack([Xt, Xc])])
        X = X / np.linalg.norm(X, axis=0)
        G = -((w * (dc - m)) * ((p[nt:] > 0.01) & (p[nt:] < 0.99))) @ X[nt:]
        H = (X * (p * (1 - p))[:, None]).T @ X
        psi = np.r_[(dt - dt.mean()) / nt, -w * (dc - m)] + (D - p) * (X @ np.linalg.solve(H, G))
        return dt.mean() - m, np.sqrt((psi ** 2).sum() + v(dt) / nt ** 2)
    b, e = ols(A, dc)
    r = dt - np.column_stack([np.ones(nt), Xt]) @ b
    att = r.mean() - (w @ e) / nt
    return att, np.sqrt((((r - att) / nt) ** 2).sum() + ((w * e / nt) ** 2).sum())
