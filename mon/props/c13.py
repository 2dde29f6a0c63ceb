"""C13: triple difference."""
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of, ddd
from diff_diff import TripleDifference, triple_difference

RULE = ("eight-cell data with arbitrary (also extreme) cell sizes, levels 0 to 1e6, three methods, covariates of any units, robust/classical/clustered; "
        "non-trivial = distinct (method, covariates, clustering, cell-size pattern) state")
NOTE = "No-covariate identity, interacted regression, weighted contrasts and standard errors recomputed; double robustness observed on noise-free and on repeated samples."
SCALE = 4                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"att": 250, "se": 250, "cells": 100, "coherent": 250, "covariate-att": 80, "equivariance": 200, "empty-cell": 100,
            "dr-outcome-model": 40, "dr-propensity-model": 3}
METHODS = ("reg", "ipw", "dr")
SIG = {(g, p, t): (1 if (g + p + t) % 2 else -1) for g in (0, 1) for p in (0, 1) for t in (0, 1)}


def make(rng, covs=0, n_hi=40, min_cell=2):
    mode = pick(rng, "equal", "random", "random", "extreme")
    if mode == "equal":
        counts = np.full(8, int(rng.integers(max(3, min_cell), n_hi)))
    elif mode == "random":
        counts = rng.integers(min_cell, n_hi, 8)
    else:
        counts = rng.integers(min_cell, min_cell + 4, 8)
        counts[rng.integers(0, 8, 2)] = int(rng.integers(n_hi, 5 * n_hi))
    cells = np.repeat(np.arange(8), counts)
    G, Pp, T = (cells >> 2) & 1, (cells >> 1) & 1, cells & 1
    n = len(cells)
    level = float(pick(rng, 0, 10, 10, -300, 1e5))
    y = level + rng.normal(0, 2, 8)[cells] + rng.normal(0, 1, n) * rng.uniform(0.3, 2, 8)[cells]
    df = pd.DataFrame({"g": G, "p": Pp, "t": T, "cl": rng.integers(0, 12, n)})
    y = y + rng.normal(0, 0.7, 12)[df.cl]
    for k in range(covs):
        x = rng.normal(0, 1, n) + 0.4 * G - 0.3 * Pp + 0.2 * G * Pp
        df[f"x{k+1}"] = x * float(pick(rng, 1, 1, 1e-3, 1e4)) + float(pick(rng, 0, 0, 50))
        y = y + (0.5 + k) * x
    df["y"] = y
    for c in ("g", "p", "t"):
        if maybe(rng, 0.2):
            df[c] = df[c].astype(pick(rng, float, bool))
    df = df.iloc[rng.permutation(n)].reset_index(drop=True)
    return (refs.relayout(rng, df) if maybe(rng, 0.4) else df), mode, level


def gpt(df):
    return [df[c].to_numpy(float) for c in ("g", "p", "t")]


def design(df, cov):
    G, P, T = gpt(df)
    return np.column_stack([np.ones(len(df)), G, P, T, G * P, G * T, P * T, G * P * T] + [df[c].to_numpy(float) for c in cov])


def contrast(v, df, w=None, cl=None):
    G, P, T = gpt(df)
    w = np.ones(len(df)) if w is None else w
    att, psi = 0.0, np.zeros(len(df))
    for (g, p, t), s in SIG.items():
        m = (G == g) & (P == p) & (T == t)
        mu = (w[m] @ v[m]) / w[m].sum()
        att += s * mu
        k = m.sum()
        psi[m] = s * w[m] / w[m].sum() * (v[m] - mu) * (np.sqrt(k / (k - 1)) if k > 1 else 0)
    if cl is None:
        return att, np.sqrt((psi ** 2).sum())
    sums = pd.Series(psi).groupby(np.asarray(cl)).sum().to_numpy()
    return att, np.sqrt(len(sums) / (len(sums) - 1) * (sums ** 2).sum())


def fit(df, method, cov=None, **kw):
    return TripleDifference(estimation_method=method, **kw).fit(df, outcome="y", group="g", partition="p", time="t", covariates=list(cov) if cov else None)


def coherent(mon, r, df, alpha, k, msg):
    n = len(df)
    dfree = max(n - 8 - k, 1)
    refs.inference(mon, "coherent", r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, df=dfree, msg=msg)
    G, P, T = gpt(df)
    mon.check("cells", (r.n_obs, r.n_treated_eligible, r.n_treated_ineligible, r.n_control_eligible, r.n_control_ineligible)
              == (n, int((G * P).sum()), int((G * (1 - P)).sum()), int(((1 - G) * P).sum()), int(((1 - G) * (1 - P)).sum())), f"{msg}: counts")
    y = df.y.to_numpy(float)
    want = {}
    for g, gn in ((1, "Treated"), (0, "Control")):
        for p, pn in ((1, "Eligible"), (0, "Ineligible")):
            for t, tn in ((0, "Pre"), (1, "Post")):
                want[f"{gn}, {pn}, {tn}"] = y[(G == g) & (P == p) & (T == t)].mean()
    mon.check("cells", set(r.group_means) == set(want), f"{msg}: {list(r.group_means)}")
    mon.close("cells", [r.group_means.get(c, np.nan) for c in want], list(want.values()), rtol=1e-9, msg=f"{msg}: cell means")


def f_plain(mon, rng, tier):
    df, mode, level = make(rng)
    alpha = alpha_of(rng)
    robust, cl = maybe(rng, 0.7), (None if maybe(rng, 0.6) else "cl")
    y = df.y.to_numpy(float)
    s = y.std()
    want, se0 = contrast(y - y.mean(), df, cl=df.cl if cl else None)
    X = design(df, [])
    b, e = refs.ols(X, y - y.mean())
    for m in METHODS:
        msg = f"{m} robust={robust} cluster={cl}"
        r = fit(df, m, robust=robust, cluster=cl, alpha=alpha)
        mon.close("att", r.att, want, rtol=1e-8, atol=1e-8 * s + 1e-11 * abs(level), msg=f"{msg}: eight-cell contrast")
        if m == "reg":
            V = refs.vcov(X, e, "cluster" if cl else "hc1" if robust else "homo", df.cl.to_numpy() if cl else None)
            mon.close("se", r.se, np.sqrt(V[7, 7]), rtol=1e-6, atol=1e-10 * s, msg=f"{msg}: regression SE")
            mon.close("r2", r.r_squared, 1 - (e @ e) / ((y - y.mean()) ** 2).sum(), rtol=1e-6, atol=1e-8, msg="r_squared")
        else:
            mon.close("se", r.se, se0, rtol=1e-6, atol=1e-10 * s, msg=f"{msg}: SE of the contrast of cell means")
        coherent(mon, r, df, alpha, 0, msg)
        mon.check("cells", (r.n_clusters == (df.cl.nunique() if cl else None)) and r.estimation_method == m and r.alpha == alpha, f"{msg}: labels {r.n_clusters} {r.estimation_method} {r.alpha}")
        mon.state(m, mode, cl, robust)
    q = triple_difference(df, "y", "g", "p", "t", estimation_method="dr", robust=robust, alpha=alpha)
    mon.close("att", q.att, want, rtol=1e-8, atol=1e-8 * s + 1e-11 * abs(level), msg="convenience function")


def weights(df, cov, trim, clipped=False, stats=None):
    G, P, T = gpt(df)
    X = df[cov].to_numpy(float)
    pg = refs.logit(X, G)

    def cond(g):
        m = G == g
        p = refs.logit_fit(X[m], P[m], X)
        return p
    p1, p0 = cond(1), cond(0)
    if pg is None or p1 is None or p0 is None:
        return None
    if clipped:
        c = lambda q: np.clip(q, trim, 1 - trim)
        pg, p1, p0 = c(pg), c(p1), c(p0)
        pp = np.where(G == 1, p1, p0)
        stats.update({"P(G=1) mean": pg.mean(), "P(G=1) std": pg.std(), "P(P=1) mean": pp.mean(), "P(P=1) std": pp.std()})
        own = np.where(G == 1, pg, 1 - pg) * np.where(P == 1, pp, 1 - pp)
        return np.where((G == 1) & (P == 1), 1.0, c(pg * p1) / c(own))
    allp = np.r_[pg, p1, p0]
    if allp.min() < trim + 1e-3 or allp.max() > 1 - trim - 1e-3:
        return None
    own = np.where(G == 1, pg, 1 - pg) * np.where(P == 1, np.where(G == 1, p1, p0), 1 - np.where(G == 1, p1, p0))
    t = pg * p1
    if min(own.min(), t.min()) < trim:
        return None
    return np.where((G == 1) & (P == 1), 1.0, t / own)


def f_cov(mon, rng, tier):
    k = int(pick(rng, 1, 1, 2))
    df, mode, level = make(rng, covs=k, n_hi=60, min_cell=k + 4)
    cov = [f"x{i+1}" for i in range(k)]
    alpha = alpha_of(rng)
    cl = None if maybe(rng, 0.6) else "cl"
    y = df.y.to_numpy(float) - df.y.mean()
    s = y.std()
    X = design(df, cov)
    b, e = refs.ols(X, y)
    r = fit(df, "reg", cov, cluster=cl, alpha=alpha)
    mon.close("covariate-att", r.att, b[7], rtol=1e-6, atol=1e-8 * s + 1e-10 * abs(level), msg="regression with covariates")
    V = refs.vcov(X, e, "cluster" if cl else "hc1", df.cl.to_numpy() if cl else None)
    mon.close("se", r.se, np.sqrt(V[7, 7]), rtol=1e-5, atol=1e-9 * s, msg="regression SE with covariates")
    coherent(mon, r, df, alpha, k, "reg+cov")
    trim = 0.001
    w = weights(df, cov, trim)
    if w is None:
        mon.saw("overlap-too-thin")
        return
    mon.state("covariates", k, mode, cl)
    a, se = contrast(y, df, w, df.cl if cl else None)
    r = fit(df, "ipw", cov, cluster=cl, alpha=alpha, pscore_trim=trim)
    mon.close("covariate-att", r.att, a, rtol=2e-3, atol=2e-3 * s, msg="IPW with covariates")
    mon.close("se", r.se, se, rtol=1e-2, atol=1e-9 * s, msg="IPW SE")
    coherent(mon, r, df, alpha, k, "ipw+cov")
    big = float(pick(rng, 0.05, 0.15, 0.25))
    st = {}
    wb = weights(df, cov, big, True, st)
    if wb is not None:
        at, set_ = contrast(y, df, wb, df.cl if cl else None)
        rt = fit(df, "ipw", cov, cluster=cl, alpha=alpha, pscore_trim=big)
        mon.close("trimmed", rt.att, at, rtol=2e-3, atol=2e-3 * s, msg=f"IPW with scores trimmed at {big}")
        mon.close("trimmed", rt.se, set_, rtol=1e-2, atol=1e-9 * s, msg=f"IPW SE, trim {big}")
        if rt.pscore_stats:
            mon.close("trimmed", [rt.pscore_stats.get(q, v) for q, v in st.items()], list(st.values()), atol=2e-3, msg=f"propensity summary, trim {big}")
        mon.state("trim", big)
    G, P, T = gpt(df)
    Z = df[cov].to_numpy(float)
    Z = np.column_stack([np.ones(len(Z)), (Z - Z.mean(0)) / Z.std(0)])
    v, own = y.copy(), np.zeros(len(y))
    for (g, p, t), sg in SIG.items():
        m = (G == g) & (P == p) & (T == t)
        bb, _ = refs.ols(Z[m], y[m])
        own[m] = Z[m] @ bb
        tgt = (G == 1) & (P == 1) & (T == t)
        if (g, p) != (1, 1):
            v[tgt] += (1 if g == p else -1) * (Z[tgt] @ bb)
            v[m] -= Z[m] @ bb
    a, se = contrast(v, df, w, df.cl if cl else None)
    r = fit(df, "dr", cov, cluster=cl, alpha=alpha, pscore_trim=trim)
    mon.close("covariate-att", r.att, a, rtol=1e-3, atol=1e-3 * s, msg="doubly robust with covariates")
    if r.r_squared is not None:
        mon.close("r2", r.r_squared, 1 - ((y - own) ** 2).sum() / ((y - y.mean()) ** 2).sum(), rtol=1e-6, atol=1e-7, msg="doubly robust R2 of the outcome models")
    mon.close("se", r.se, se, rtol=1e-2, atol=1e-9 * s, msg="doubly robust SE")
    coherent(mon, r, df, alpha, k, "dr+cov")


def f_equivariant(mon, rng, tier):
    k = int(pick(rng, 0, 1, 2))
    df, mode, level = make(rng, covs=k, min_cell=k + 4)
    cov = [f"x{i+1}" for i in range(k)]
    s = df.y.std()
    c, sc = float(pick(rng, 1, 1e3, -1e5, 1e6)), float(pick(rng, -1, 1e-4, 1e5, 3))
    for m in METHODS:
        a = fit(df, m, cov)
        b = fit(df.assign(y=df.y + c), m, cov)
        tol = 1e-5 * s + 1e-9 * (abs(c) + abs(level))
        mon.close("equivariance", [b.att, b.se], [a.att, a.se], rtol=1e-5, atol=tol, msg=f"{m}: adding {c}")
        b = fit(df.assign(y=df.y * sc), m, cov)
        mon.close("equivariance", [b.att / sc, b.se / abs(sc)], [a.att, a.se], rtol=1e-5, atol=tol, msg=f"{m}: scaling by {sc}")
        mon.close("equivariance", b.p_value, a.p_value, rtol=1e-4, atol=1e-6 * (1 + abs(level) / s), msg=f"{m}: p-value scaling by {sc}")
        for flip in ("g", "p", "t"):
            if m == "reg" or not cov:
                b = fit(df.assign(**{flip: 1 - df[flip].astype(int)}), m, cov)
                mon.close("equivariance", [b.att, b.se], [-a.att, a.se], rtol=1e-5, atol=tol, msg=f"{m}: recoding {flip}")
        if cov:
            b = fit(df.assign(**{c: df[c] * 1e3 - 7 for c in cov}), m, cov)
            mon.close("equivariance", [b.att, b.se], [a.att, a.se], rtol=2e-3, atol=2e-3 * s, msg=f"{m}: covariate units")
    mon.state("equivariance", k, mode)


def f_empty(mon, rng, tier):
    df, mode, level = make(rng)
    G, P, T = gpt(df)
    for (g, p, t) in SIG:
        d = df[~((G == g) & (P == p) & (T == t))]
        for m in METHODS:
            mon.raises("empty-cell", (ValueError,), lambda: fit(d, m), f"{m}: empty cell {g, p, t}")
    mon.state("empty", mode)


def f_outcome_model(mon, rng, tier):
    """Outcome linear in X with X-dependent trends; assignment not logistic: doubly robust and exact without noise."""
    counts = rng.integers(8, 40, 8)
    cells = np.repeat(np.arange(8), counts)
    G, P, T = (cells >> 2) & 1, (cells >> 1) & 1, cells & 1
    x = rng.normal(0, 1, len(cells)) * (1 + G) + np.where(P == 1, rng.normal(0, 1, len(cells)) ** 2, 0) + 0.5 * G * P
    tau = float(rng.normal(0, 3))
    c = rng.normal(0, 2, 8)
    y = 10 + c[0] * G + c[1] * P + c[2] * T + c[3] * G * P + (c[4] + c[5] * x) * G * T + (c[6] + c[7] * x) * P * T + 2 * x + tau * G * P * T
    df = pd.DataFrame({"g": G, "p": P, "t": T, "x": x, "y": y})
    r = fit(df, "dr", ["x"])
    mon.close("dr-outcome-model", r.att, tau, rtol=1e-6, atol=1e-6, msg="doubly robust with a correct outcome model")
    r = fit(df.assign(y=y - c[5] * x * G * T - c[7] * x * P * T), "reg", ["x"])
    mon.close("dr-outcome-model", r.att, tau, rtol=1e-6, atol=1e-6, msg="regression with a correct outcome model")
    mon.state("outcome-model", int(counts.min()))


def f_propensity(mon, rng, tier):
    """Assignment logistic in X, outcome strongly nonlinear in X with X-dependent trends."""
    n = 3000
    x = rng.normal(0, 1, n)
    G = (rng.random(n) < 1 / (1 + np.exp(-(0.7 * x)))).astype(int)
    P = (rng.random(n) < 1 / (1 + np.exp(-(0.2 - 0.6 * x + 0.9 * G * x)))).astype(int)
    T = (rng.random(n) < 0.5).astype(int)
    f = x ** 2 + 0.5 * x ** 3
    tau = 1.0
    y = 5 + G - P + T * (0.5 + f * (0.5 * G + 0.8 * P)) + x + tau * G * P * T + rng.normal(0, 1, n)
    df = pd.DataFrame({"g": G, "p": P, "t": T, "x": x, "y": y})
    for m in ("dr", "ipw"):
        r = fit(df, m, ["x"], pscore_trim=0.001)
        mon.stream(m, (r.att - tau, r.se))
    r = fit(df, "reg", ["x"])
    mon.stream("reg", (r.att - tau, r.se))
    mon.state("propensity", int(G.sum() > n / 2))


def FINAL(mon, streams, tier):
    for m in ("dr", "ipw"):
        e = np.array(streams[m])
        z = e[:, 0].mean() / (e[:, 0].std(ddof=1) / np.sqrt(len(e)))
        mon.check("dr-propensity-model", abs(z) < 5, f"{m}: mean error {e[:,0].mean():.4f} over {len(e)} samples, z={z:.2f} with a correct propensity model")
    ratio = np.array(streams["dr"])[:, 1].mean() / np.array(streams["dr"])[:, 0].std(ddof=1)
    mon.check("dr-propensity-model", 0.6 < ratio < 1.7, f"reported/actual spread {ratio:.2f}")
    e = np.array(streams["reg"])
    mon.saw("reg-biased-control", int(abs(e[:, 0].mean() / (e[:, 0].std(ddof=1) / np.sqrt(len(e)))) > 5))


KINDS = {"plain": (f_plain, 120, 2500), "covariates": (f_cov, 120, 2500), "equivariance": (f_equivariant, 50, 800), "empty": (f_empty, 8, 60),
         "outcome-model": (f_outcome_model, 40, 600), "propensity": (f_propensity, 120, 800)}
