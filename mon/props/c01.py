"""C01: OLS core against an independent QR/SVD reference."""
import warnings

import numpy as np
import pandas as pd
from scipy import stats

from mon import refs
from mon.gen import pick, maybe, alpha_of
from diff_diff.linalg import solve_ols, compute_robust_vcov, LinearRegression, compute_r_squared

RULE = ("random designs (continuous, dummy, interaction and nearly-balanced columns, n from k+1 up, column "
        "scales spread over up to 12 decades, planted linear dependencies), outcomes, cluster label types and "
        "rank-deficiency modes; a case is non-trivial when it reaches a distinct (shape class, scale class, "
        "deficiency, covariance kind, action) state")
SCALE = 3                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"coef": 300, "vcov": 300, "normal-equations": 300, "rank-pattern": 100, "refused": 50}


def design(rng, n, k, scale_decades, const=True):
    cols = [np.ones(n)] if const else []
    while len(cols) < k:
        kind = pick(rng, "norm", "norm", "dummy", "trend", "inter", "heavy")
        if kind == "norm":
            c = rng.normal(rng.normal(0, 2), rng.uniform(0.3, 2), n)
        elif kind == "dummy":
            c = (rng.random(n) < rng.uniform(0.25, 0.75)).astype(float)
        elif kind == "trend":
            c = rng.integers(0, 9, n).astype(float) + 0.1 * rng.normal(size=n)
        elif kind == "inter":
            c = (cols[int(rng.integers(len(cols)))] if cols else 1.0) * rng.normal(1, 1, n)
        else:
            c = rng.standard_t(3, n)
        cols.append(c)
    X = np.column_stack(cols)
    s = 10.0 ** rng.uniform(-scale_decades / 2, scale_decades / 2, k)
    s[0] = 1.0 if maybe(rng, 0.7) else s[0]
    return X * s, s


def well_conditioned(X, lim=1e4):
    Xs = X / np.sqrt((X ** 2).sum(0))
    return np.linalg.cond(Xs) < lim


def clusters(rng, n, G):
    c = rng.integers(0, G, n)
    c[:G] = np.arange(G)
    c = c[rng.permutation(n)]
    style = pick(rng, "int", "gap", "str", "float", "neg")
    if style == "gap":
        return c * 17 + 3
    if style == "str":
        return np.array([f"c{v}" for v in c], dtype=object)
    if style == "float":
        return c * 0.5 + 0.25
    if style == "neg":
        return c - G // 2
    return c


def outcome(rng, X, scale=1.0):
    n, k = X.shape
    s = np.sqrt((X ** 2).mean(0))
    b = rng.normal(0, 1, k) / np.where(s > 0, s, 1)
    return scale * (X @ b + rng.normal(0, 1, n) * (1 + 0.5 * rng.random(n)) + rng.normal(0, 5))


def judge(mon, X, y, coef, resid, fitted, vcov, kind, cl, msg, k_absorb=0):
    """All observations on one regression output with identified pattern from coef itself."""
    n, k = X.shape
    keep = ~np.isnan(coef)
    r = refs.rank_of(X)
    ok = mon.check("rank-pattern", keep.sum() == r,
                   lambda: f"{msg}: rank {r} of {k} but {keep.sum()} coefficients reported; coef={coef}")
    if not ok:
        return
    Xk = X[:, keep]
    if not mon.check("rank-pattern", refs.rank_of(Xk) == r, f"{msg}: kept columns are not independent"):
        return
    b, e = refs.ols(Xk, y)
    s = np.sqrt((Xk ** 2).sum(0))
    ysc = np.sqrt(((y - y.mean()) ** 2).sum()) + 1e-9 * np.abs(y).max() + 1e-300
    mon.close("coef", coef[keep] * s / ysc, b * s / ysc, rtol=1e-6, atol=1e-6, msg=f"{msg}: coefficients (scaled)")
    mon.close("resid", resid / ysc, e / ysc, rtol=1e-6, atol=1e-6, msg=f"{msg}: residuals")
    if fitted is not None:
        mon.close("fitted", (fitted + resid) / ysc, y / ysc, rtol=1e-9, atol=1e-9, msg=f"{msg}: fitted+resid=y")
    mon.close("normal-equations", (Xk / s).T @ resid / ysc, np.zeros(r), atol=1e-6, msg=f"{msg}: X'e")
    if vcov is not None:
        mon.check("vcov", vcov.shape == (k, k), f"{msg}: vcov shape {vcov.shape}")
        drop = ~keep
        if drop.any():
            mon.check("vcov", bool(np.isnan(vcov[drop]).all() and np.isnan(vcov[:, drop]).all()),
                      f"{msg}: vcov of dropped columns not NaN")
        V = refs.vcov(Xk, e, kind, cl)
        got = vcov[np.ix_(keep, keep)] * np.outer(s, s) / ysc ** 2
        want = V * np.outer(s, s) / ysc ** 2
        sc = np.abs(np.diag(want)).max()
        mon.close("vcov", got, want, rtol=2e-5, atol=2e-6 * sc + 1e-12, msg=f"{msg}: {kind} covariance (scaled)")


def k_full(mon, rng, tier):
    for _ in range(4):
        k = int(rng.integers(1, 9))
        n = k + int(pick(rng, 1, 2, 3, 10, 60, 200))
        dec = float(pick(rng, 0, 0, 4, 8, 12))
        X, s = design(rng, n, k, dec, const=maybe(rng, 0.75))
        if refs.rank_of(X) < k or not well_conditioned(X):
            continue
        y = outcome(rng, X, 10.0 ** rng.uniform(-4, 4))
        G = int(min(n, pick(rng, 2, 3, 5, 12, 40)))
        cl = clusters(rng, n, G) if maybe(rng) and n > 3 else None
        G = len(set(cl)) if cl is not None else 0
        action = pick(rng, "warn", "silent", "error")
        kind = "cluster" if cl is not None else "hc1"
        mon.describe(n=n, k=k, decades=dec, clusters=G, action=action)
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            if maybe(rng):
                coef, resid, fitted, vc = solve_ols(X, y, cluster_ids=cl, return_fitted=True,
                                                    rank_deficient_action=action)
            else:
                coef, resid, vc = solve_ols(X, y, cluster_ids=cl, rank_deficient_action=action,
                                            skip_rank_check=maybe(rng, 0.3))
                fitted = None
        mon.check("quiet-on-full-rank", not any("ank" in str(w.message) for w in wl),
                  f"full-rank design (cond ok, {dec} decades) announced as rank deficient")
        judge(mon, X, y, coef, resid, fitted, vc, kind, cl, f"full n={n} k={k} dec={dec}")
        mon.state("full", min(n - k, 4), k, dec, kind, min(G, 6), action)
        # direct covariance entry point
        if coef is not None and not np.isnan(coef).any():
            vc2 = compute_robust_vcov(X, resid, cl)
            b, e = refs.ols(X, y)
            ss = np.sqrt((X ** 2).sum(0))
            V = refs.vcov(X, e, kind, cl) * np.outer(ss, ss)
            mon.close("vcov", vc2 * np.outer(ss, ss), V, rtol=2e-5, atol=2e-6 * np.abs(V).max() + 1e-12,
                      msg="compute_robust_vcov")


def k_close(mon, rng, tier):
    """Nearly dependent columns: solved while the dependence is well above the documented 1e-07, dropped when it is below."""
    k, n = int(rng.integers(2, 6)), int(rng.integers(20, 120))
    X, _ = design(rng, n, k, float(pick(rng, 0, 4)))
    if refs.rank_of(X) < k or not well_conditioned(X, 200):
        return
    j = int(rng.integers(k))
    z = rng.normal(size=n)
    D = np.column_stack([X, z])
    z = z - X @ refs.ols(X, z)[0]
    eps = float(pick(rng, 1e-3, 1e-4, 1e-5, 1e-11))
    c = X[:, j] + eps * np.sqrt((X[:, j] ** 2).sum() / (z @ z)) * z
    W = np.column_stack([X, c])
    y = outcome(rng, D)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        b, e, v = solve_ols(W, y)
    said = any("ank" in str(w.message) for w in wl)
    if eps < 1e-8:
        mon.check("rank-pattern", np.isnan(b).sum() == 1 and said, f"dependence of {eps:g}: coefficients {b}, warned {said}")
    else:
        mon.check("rank-pattern", not np.isnan(b).any() and not said, f"distinct column (relative distance {eps:g}) reported as dependent: {b}")
        if not np.isnan(b).any():
            # the exact fit from the orthogonalised design
            g = refs.ols(np.column_stack([X, z]), y)[0]
            f = eps * np.sqrt((X[:, j] ** 2).sum() / (z @ z))
            want = g[:k].copy()
            want[j] -= g[k] / f
            s_ = np.sqrt((W ** 2).sum(0))
            got = np.r_[b[:k], b[k]] * s_
            ref = np.r_[want, g[k] / f] * s_
            mon.close("coef", got, ref, rtol=1e-4, atol=1e-5 * np.abs(ref).max(), msg=f"near-collinear {eps:g}")
    mon.state("close", k, eps)


def k_deficient(mon, rng, tier):
    for _ in range(3):
        k0 = int(rng.integers(2, 6))
        m = int(rng.integers(1, 4))
        n = k0 + m + int(pick(rng, 2, 8, 50, 150))
        dec = float(pick(rng, 0, 0, 3, 6))
        X0, _ = design(rng, n, k0, 0)
        if refs.rank_of(X0) < k0 or not well_conditioned(X0, 300):
            continue
        cols = [X0[:, j] for j in range(k0)]
        for _j in range(m):
            how = pick(rng, "dup", "scaled", "comb", "zero", "sum")
            if how == "dup":
                c = cols[int(rng.integers(k0))].copy()
            elif how == "scaled":
                c = cols[int(rng.integers(k0))] * rng.uniform(-5, 5)
            elif how == "zero":
                c = np.zeros(n)
            elif how == "sum":
                c = cols[0] - cols[int(rng.integers(1, k0))]
            else:
                c = X0 @ rng.normal(0, 1, k0)
            cols.append(c)
        X = np.column_stack(cols)[:, rng.permutation(k0 + m)]
        X = X * 10.0 ** rng.uniform(-dec / 2, dec / 2, X.shape[1])
        k = X.shape[1]
        if refs.rank_of(X) != k0:
            continue
        y = outcome(rng, X)
        cl = clusters(rng, n, int(min(n, 6))) if maybe(rng) else None
        names = [f"col_{j}" for j in range(k)]
        mon.describe(n=n, k=k, rank=k0, decades=dec)
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            coef, resid, fitted, vc = solve_ols(X, y, cluster_ids=cl, return_fitted=True,
                                                rank_deficient_action="warn", column_names=names)
        msgs = " ".join(str(w.message) for w in wl)
        dropped = [names[j] for j in range(k) if np.isnan(coef[j])]
        if mon.check("warns", "ank" in msgs, f"rank {k0}/{k} dropped without a warning"):
            mon.check("warns", all(d in msgs for d in dropped[:5]), f"warning does not name {dropped}: {msgs[:200]}")
        judge(mon, X, y, coef, resid, fitted, vc, "cluster" if cl is not None else "hc1", cl,
              f"deficient rank {k0}/{k} dec={dec}")
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            c2, r2, v2 = solve_ols(X, y, cluster_ids=cl, rank_deficient_action="silent")
        mon.check("silent", not wl, f"silent mode warned: {[str(w.message) for w in wl][:2]}")
        mon.close("modes-agree", c2, coef, rtol=1e-9, msg="silent vs warn coefficients")
        mon.raises("refused", (ValueError,), lambda: solve_ols(X, y, rank_deficient_action="error"),
                   f"error mode on rank {k0}/{k}")
        mon.state("deficient", k0, m, dec, cl is not None)


def k_regression(mon, rng, tier):
    for _ in range(3):
        k = int(rng.integers(1, 6))
        n = k + int(pick(rng, 3, 6, 30, 120))
        icpt = maybe(rng, 0.7)
        X, _ = design(rng, n, k + 1, float(pick(rng, 0, 0, 6)))
        X = X[:, 1:] if icpt else X
        defi = maybe(rng, 0.3)
        if defi:
            X = np.column_stack([X, X[:, 0] * 2.0])
        D = np.column_stack([np.ones(n), X]) if icpt else X
        if not well_conditioned(D[:, :D.shape[1] - int(defi)]) or refs.rank_of(D) != D.shape[1] - int(defi):
            continue
        if n <= D.shape[1]:
            continue
        y = outcome(rng, D, 10.0 ** rng.uniform(-2, 3))
        mode = pick(rng, "classical", "robust", "cluster_init", "cluster_fit", "cluster_nonrobust")
        cl = clusters(rng, n, int(min(n, 7))) if mode.startswith("cluster") else None
        alpha = alpha_of(rng)
        adj = int(pick(rng, 0, 0, 1, 2))
        reg = LinearRegression(include_intercept=icpt, robust=mode in ("robust", "cluster_init", "cluster_fit"),
                               cluster_ids=cl if mode in ("cluster_init", "cluster_nonrobust") else None,
                               alpha=alpha, rank_deficient_action="silent")
        got = reg.fit(X, y, cluster_ids=cl if mode == "cluster_fit" else None, df_adjustment=adj)
        mon.check("fluent", got is reg, "fit does not return self")
        kind = {"classical": "homo", "robust": "hc1"}.get(mode, "cluster")
        coef = np.asarray(reg.coefficients_)
        judge(mon, D, y, coef, reg.residuals_, reg.fitted_values_, reg.vcov_, kind, cl, f"LinearRegression {mode}")
        r = int((~np.isnan(coef)).sum())
        mon.check("counts", reg.n_obs_ == n and reg.n_params_ == D.shape[1] and reg.n_params_effective_ == r
                  and reg.df_ == n - r - adj, lambda: f"counts {reg.n_obs_, reg.n_params_, reg.n_params_effective_, reg.df_}"
                  f" vs n={n} k={D.shape[1]} rank={r} adj={adj}")
        e = reg.residuals_
        tss = ((y - y.mean()) ** 2).sum()
        r2 = 1 - (e @ e) / tss
        mon.close("r2", reg.r_squared(), r2, rtol=1e-9, atol=1e-9, msg="R2")
        mon.close("r2", reg.r_squared(adjusted=True), 1 - (1 - r2) * (n - 1) / (n - r), rtol=1e-8, atol=1e-8, msg="adj R2")
        Xn = rng.normal(0, 1, (5, X.shape[1]))
        Dn = np.column_stack([np.ones(5), Xn]) if icpt else Xn
        mon.close("predict", reg.predict(Xn), Dn @ np.nan_to_num(coef), rtol=1e-9, msg="predict")
        df = n - r - adj
        for j in range(D.shape[1]):
            a2 = alpha if maybe(rng) else alpha_of(rng)
            inf = reg.get_inference(j, alpha=None if a2 == alpha else a2)
            c, se = coef[j], np.sqrt(reg.vcov_[j, j])
            if np.isnan(c):
                mon.check("inference-nan", all(np.isnan(v) for v in (inf.coefficient, inf.se, inf.t_stat, inf.p_value, *inf.conf_int))
                          and not inf.is_significant() and inf.significance_stars() == "",
                          lambda: f"dropped coefficient has inference {inf}")
                continue
            if not se > 1e-10 * abs(c):
                continue
            dfe = df if df > 0 else None
            q = refs.crit(a2, dfe)
            mon.close("inference", [inf.coefficient, inf.se, inf.t_stat, inf.p_value, *inf.conf_int],
                      [c, se, c / se, refs.p_two_sided(c / se, dfe), c - q * se, c + q * se], rtol=1e-7, atol=1e-12,
                      scale=0, msg=f"inference coef {j} alpha={a2} df={df}")
            mon.check("inference", inf.is_significant() == (inf.p_value < a2) and inf.alpha == a2, "significance flag")
            mon.close("accessors", [reg.get_coefficient(j), reg.get_se(j)], [c, se], rtol=1e-12, msg="get_coefficient/se")
            dd = int(rng.integers(1, 30))
            i3 = reg.get_inference(j, df=dd)
            mon.close("inference", i3.p_value, refs.p_two_sided(c / se, dd), rtol=1e-7, msg="df override")
        if cl is not None:
            other = clusters(rng, n, int(min(n, 5)))
            r2_ = LinearRegression(include_intercept=icpt, robust=True, cluster_ids=other, rank_deficient_action="silent").fit(X, y, cluster_ids=cl, df_adjustment=adj)
            r3_ = LinearRegression(include_intercept=icpt, robust=True, rank_deficient_action="silent").fit(X, y, cluster_ids=cl, df_adjustment=adj)
            mon.close("vcov", np.nan_to_num(r2_.vcov_), np.nan_to_num(r3_.vcov_), rtol=1e-10, msg="clusters given to fit() against those of the constructor")
        a3, d3 = alpha_of(rng), int(rng.integers(2, 40))
        one = [reg.get_inference(j, alpha=a3, df=d3) for j in range(D.shape[1])]
        for nm, many in (("batch", reg.get_inference_batch(list(range(D.shape[1])), alpha=a3, df=d3)), ("all", dict(enumerate(reg.get_all_inference(alpha=a3, df=d3))))):
            mon.check("inference", all(repr(many[j]) == repr(one[j]) for j in range(D.shape[1])), f"{nm} inference at alpha={a3}, df={d3} differs from one by one")
        alls = reg.get_all_inference()
        bat = reg.get_inference_batch([0, D.shape[1] - 1])
        mon.check("inference", len(alls) == D.shape[1] and set(bat) == {0, D.shape[1] - 1}, "batch keys")
        mon.close("inference", [bat[0].coefficient, bat[D.shape[1] - 1].coefficient], [alls[0].coefficient, alls[-1].coefficient],
                  rtol=1e-12, msg="batch vs all")
        mon.state("reg", mode, icpt, defi, adj, min(n - k, 10))


def k_meta(mon, rng, tier):
    """Row order, column order and column units leave the fit alone."""
    for _ in range(3):
        k = int(rng.integers(2, 7))
        n = k + int(pick(rng, 5, 40, 150))
        X, _ = design(rng, n, k, 0)
        if refs.rank_of(X) < k or not well_conditioned(X, 1e3):
            continue
        y = outcome(rng, X)
        cl = clusters(rng, n, 8) if maybe(rng) and n >= 10 else None
        c, r, v = solve_ols(X, y, cluster_ids=cl)
        sc = 10.0 ** rng.uniform(-7, 7, k)
        p = rng.permutation(k)
        q = rng.permutation(n)
        c2, r2, v2 = solve_ols((X * sc)[q][:, p], y[q], cluster_ids=None if cl is None else cl[q])
        mon.close("units-invariance", c2 * sc[p], c[p], rtol=1e-6, atol=1e-7, msg=f"rescale {np.log10(sc).round(1)}")
        mon.close("units-invariance", r2, r[q], rtol=1e-6, atol=1e-6, msg="residuals under rescaling")
        mon.close("units-invariance", v2 * np.outer(sc[p], sc[p]), v[np.ix_(p, p)], rtol=1e-4,
                  atol=1e-5 * np.abs(np.diag(v)).max(), msg="covariance under rescaling")
        if cl is not None:
            _, inv = np.unique(cl, return_inverse=True)
            v3 = solve_ols(X, y, cluster_ids=np.array([f"k{(7 * a + 3) % 101}" for a in inv]))[2]
            mon.close("cluster-relabel", v3, v, rtol=1e-9, atol=1e-12, msg="relabelled clusters")
            v4 = solve_ols(X, y, cluster_ids=np.arange(n))[2]
            vh = solve_ols(X, y)[2]
            mon.close("singleton-clusters", v4, vh, rtol=1e-7, atol=1e-10 * np.abs(vh).max(),
                      msg="singleton clusters vs HC1 (n/(n-1)*(n-1)/(n-k) = n/(n-k))")
        mon.state("meta", k, min(n - k, 40), cl is not None)


def k_errors(mon, rng, tier):
    n, k = int(rng.integers(8, 40)), int(rng.integers(1, 5))
    X, _ = design(rng, n, k, 0)
    y = outcome(rng, X)
    bad = float(pick(rng, np.nan, np.inf, -np.inf))
    i, j = int(rng.integers(n)), int(rng.integers(k))
    Xb = X.copy(); Xb[i, j] = bad
    yb = y.copy(); yb[i] = bad
    V = (ValueError,)
    mon.raises("refused", V, lambda: solve_ols(Xb, y), f"{bad} in X[{i},{j}]")
    mon.raises("refused", V, lambda: solve_ols(X, yb), f"{bad} in y[{i}]")
    mon.raises("refused", V, lambda: LinearRegression(include_intercept=False).fit(Xb, y), "bad X in LinearRegression")
    mon.raises("refused", V, lambda: solve_ols(X, y[:-1]), "length mismatch")
    mon.raises("refused", V, lambda: solve_ols(X[:, 0], y), "1-d X")
    mon.raises("refused", V, lambda: solve_ols(rng.normal(size=(3, 5)), rng.normal(size=3)), "n<k")
    m = int(rng.integers(2, 7))
    mon.raises("refused", V, lambda: solve_ols(rng.normal(size=(m - 1, m)), rng.normal(size=m - 1)), "one observation fewer than columns")
    gap = np.array([f"c{v % 3}" for v in range(n)], dtype=object)
    gap[i] = pick(rng, None, np.nan)
    mon.raises("refused", V, lambda: solve_ols(X, y, cluster_ids=gap), "missing cluster identifier")
    mon.raises("refused", V, lambda: LinearRegression(include_intercept=False, cluster_ids=np.where(np.arange(n) == i, np.nan, np.arange(n) % 4)).fit(X, y), "missing numeric cluster identifier")
    mon.raises("refused", V, lambda: solve_ols(X, y, rank_deficient_action="ignore"), "bad action")
    mon.raises("refused", V, lambda: solve_ols(X, y, cluster_ids=np.zeros(n)), "one cluster")
    mon.raises("refused", V, lambda: LinearRegression().get_inference(0), "inference before fit")
    mon.state("errors", k, bad)


KINDS = {"full": (k_full, 400, 6000), "close": (k_close, 150, 2500), "deficient": (k_deficient, 160, 2500), "regression": (k_regression, 200, 3000),
         "meta": (k_meta, 120, 2000), "errors": (k_errors, 25, 200)}
