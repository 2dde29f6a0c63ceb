"""C07: wild cluster bootstrap."""
import itertools

import numpy as np
import pandas as pd
from scipy import stats

from mon import refs
from mon.gen import pick, maybe, alpha_of, cross_section
from diff_diff import DifferenceInDifferences, TwoWayFixedEffects
from diff_diff.utils import wild_bootstrap_se

RULE = ("random clustered designs (cluster counts 4-30, unequal sizes, label types, effects from zero to overwhelming, "
        "nulls, weight types, levels, replication counts); recorded bootstrap distributions are replayed by the monitor; "
        "non-trivial = distinct (clusters, weights, null, effect) state. A stream of p-values from effect-free samples is "
        "checked offline for uniformity")
NOTE = "The reference null-imposed p-value is enumerated over all sign vectors for small G, simulated independently otherwise."
ASSUMPTIONS = ["simulation comparisons use 6-sigma Monte Carlo bands"]
REQUIRED = {"absorbed": 60, "distribution": 100, "null-imposed": 60, "plumbing": 25, "uniform": 1, "power": 8}


def design(rng, G=None, effect=None, n_per=None):
    G = G or int(rng.integers(4, 30))
    sz = rng.integers(3, 9, G) if n_per is None else np.full(G, n_per)
    cl = np.repeat(np.arange(G), sz)
    n = len(cl)
    dg = (np.arange(G) < G // 2).astype(float)
    d = dg[cl] if maybe(rng, 0.7) else (rng.random(n) < 0.5).astype(float)
    t = (np.arange(n) % 2).astype(float)
    cols = [np.ones(n), d, t, d * t]
    if maybe(rng, 0.4):
        cols.append(rng.normal(0, 1, n) + d * t)
    X = np.column_stack(cols)
    eff = effect if effect is not None else float(pick(rng, 0, 0.3, 1, 3))
    y = 5 + 0.5 * d + 0.2 * t + eff * d * t + rng.normal(0, 0.6, G)[cl] * (1 + t) + rng.normal(0, 1, n) + 1.2 * X[:, 4:].sum(1)
    lab = pick(rng, "int", "gap", "str")
    c = cl if lab == "int" else cl * 13 - 7 if lab == "gap" else np.array([f"s{v:03d}" for v in cl], dtype=object)
    return X, y, cl, c, G, eff, lab


def null_fit(X, y, j, null):
    Xo = np.delete(X, j, 1)
    b, e = refs.ols(Xo, y - null * X[:, j])
    return y - e, e


def t_of(X, y, cl, j, null):
    b, e = refs.ols(X, y)
    return (b[j] - null) / np.sqrt(refs.vcov(X, e, "cluster", cl)[j, j]), b[j]


def draws(rng, wt, G, B):
    if wt == "rademacher":
        return rng.choice([-1.0, 1.0], (B, G))
    if wt == "webb":
        return rng.choice(np.array([-np.sqrt(1.5), -1, -np.sqrt(.5), np.sqrt(.5), 1, np.sqrt(1.5)]), (B, G))
    s5 = np.sqrt(5)
    p = (s5 + 1) / (2 * s5)
    return rng.choice([-(s5 - 1) / 2, (s5 + 1) / 2], (B, G), p=[p, 1 - p])


def ref_p(X, y, cl, j, null, W):
    """(strict, weak) null-imposed bootstrap p over the weight rows W, vectorised."""
    f, e = null_fit(X, y, j, null)
    t0, _ = t_of(X, y, cl, j, null)
    n, k = X.shape
    G = cl.max() + 1
    A = np.linalg.pinv(X)
    Y = f[:, None] + e[:, None] * W.T[cl]
    Bt = A @ Y
    R = Y - X @ Bt
    a = A[j]
    S = np.zeros((G, W.shape[0]))
    np.add.at(S, cl, a[:, None] * R)
    v = (G / (G - 1)) * ((n - 1) / (n - k)) * (S ** 2).sum(0)
    with np.errstate(all="ignore"):
        ts = np.abs((Bt[j] - null) / np.sqrt(v))
    ts = np.nan_to_num(ts)
    return (ts > abs(t0) * (1 + 1e-7)).mean(), (ts >= abs(t0) * (1 - 1e-7)).mean(), t0


def k_direct(mon, rng, tier):
    X, y, cl, c, G, eff, lab = design(rng)
    j = 3 if maybe(rng, 0.75) else int(rng.integers(1, X.shape[1]))
    wt = pick(rng, "rademacher", "webb", "mammen")
    null = float(pick(rng, 0, 0, 0, 0.5, eff))
    B = int(pick(rng, 199, 299, 400))
    alpha = alpha_of(rng)
    seed = int(rng.integers(1 << 20))
    e = refs.ols(X, y)[1]
    mon.describe(G=G, weights=wt, null=null, effect=eff, B=B)
    st = np.random.get_state()[1].copy()
    r = wild_bootstrap_se(X, y, e, c, j, n_bootstrap=B, weight_type=wt, null_hypothesis=null, alpha=alpha, seed=seed, return_distribution=True)
    mon.check("isolation", np.array_equal(st, np.random.get_state()[1]), "global random state changed")
    D = np.asarray(r.bootstrap_distribution)
    b, _ = refs.ols(X, y)
    t0, _ = t_of(X, y, cl, j, null)
    mon.check("fields", D.shape == (B,) and r.n_clusters == G and r.n_bootstrap == B and r.weight_type == wt and r.alpha == alpha, "fields")
    mon.close("t-original", r.t_stat_original, t0, rtol=1e-6, msg="original t")
    mon.close("distribution", r.se, D.std(ddof=1), rtol=1e-9, msg="se = sd of recorded draws")
    mon.close("distribution", [r.ci_lower, r.ci_upper], np.percentile(D, [50 * alpha, 100 - 50 * alpha]), rtol=1e-9, atol=1e-12, msg="percentile interval")
    # the recorded coefficients are those of y* = fit + w_g e_g: mean b, variance sum_g (a_g'e_g)^2
    a = np.linalg.pinv(X)[j]
    S = np.zeros(G)
    np.add.at(S, cl, a * e)
    sd = np.sqrt((S ** 2).sum())
    mon.check("centre", abs(D.mean() - b[j]) <= 6 * sd / np.sqrt(B), f"bootstrap mean {D.mean()} vs coefficient {b[j]} (sd {sd})")
    kurt = {"rademacher": 1.0, "webb": 7 / 6, "mammen": 2.0}[wt]       # E w^4 (3 rv)
    m4 = ((kurt - 3) * (S ** 4).sum() + 3 * sd ** 4)
    band = 6 * np.sqrt(max(m4 - sd ** 4, 0.02 * sd ** 4) / B) / sd ** 2
    mon.check("spread", abs(r.se ** 2 / sd ** 2 - 1) <= band + 0.02, f"bootstrap variance ratio {r.se**2/sd**2}, band {band}, weights {wt}")
    mon.stream(f"spread-{wt}", ((r.se ** 2 / sd ** 2 - 1) / (band / 6), (float(((D - b[j]) ** 3).mean()) / sd ** 3 - (wt == "mammen") * float((S ** 3).sum()) / sd ** 3)
                                / float(np.sqrt(max((((D - b[j]) / sd) ** 6).mean(), 1.0) / B))))
    # null-imposed p-value
    if wt == "rademacher" and G <= 9:
        W = np.array(list(itertools.product([-1.0, 1.0], repeat=G)))
        N2 = np.inf
    else:
        W = draws(rng, wt, G, 2000)
        N2 = 2000
    lo, hi, _ = ref_p(X, y, cl, j, null, W)
    pm = (lo + hi) / 2
    s = 6 * np.sqrt(max(pm * (1 - pm), 1.0 / B) * (1 / B + 1 / N2))
    mon.check("null-imposed", max(hi - s - 1e-3, 0) - 1 / B <= r.p_value <= hi + s + 1.5 / B,
              f"p={r.p_value} but null-imposed reference in [{lo}, {hi}] +- {s:.3f} (G={G}, {wt}, null={null}, t={t0:.3f})")
    mon.check("p-range", 1 / (B + 1) * (1 - 1e-9) <= r.p_value <= 1, f"p {r.p_value}")
    r2 = wild_bootstrap_se(X, y, e, c, j, n_bootstrap=B, weight_type=wt, null_hypothesis=null, alpha=alpha, seed=seed)
    mon.check("seed", (r2.se, r2.p_value, r2.ci_lower, r2.ci_upper) == (r.se, r.p_value, r.ci_lower, r.ci_upper), "same seed differs")
    mon.check("no-distribution", r2.bootstrap_distribution is None, "distribution returned without request")
    r3 = wild_bootstrap_se(X, y, e, c, j, n_bootstrap=B, weight_type=wt, seed=seed + 1)
    if G >= 6:
        mon.check("seed", r3.se != r.se, "different seed gives identical draws")
    mon.state(min(G, 12), wt, null, eff, lab)


def k_plumb(mon, rng, tier):
    df = cross_section(rng, n=int(rng.integers(50, 110)), covs=int(rng.integers(0, 2)), n_clusters=int(rng.integers(6, 16)))
    if df.cl.nunique() < 3:
        return
    covs = [c for c in df if c[0] == "x"]
    wt = pick(rng, "rademacher", "webb", "mammen")
    seed, B, alpha = int(rng.integers(1000)), int(pick(rng, 99, 149)), alpha_of(rng)
    kw = dict(covariates=covs or None)
    r = DifferenceInDifferences(inference="wild_bootstrap", cluster="cl", n_bootstrap=B, bootstrap_weights=wt, seed=seed, alpha=alpha).fit(df, "y", "treated", "post", **kw)
    a = DifferenceInDifferences(cluster="cl", alpha=alpha).fit(df, "y", "treated", "post", **kw)
    mon.close("plumbing", [r.att, *[r.coefficients[k] for k in a.coefficients]], [a.att, *a.coefficients.values()], rtol=1e-9, atol=1e-10, msg="point estimates")
    d, p = df.treated.to_numpy(float), df.post.to_numpy(float)
    X = np.column_stack([np.ones(len(df)), d, p, d * p] + [df[c] for c in covs])
    e = refs.ols(X, df.y.to_numpy())[1]
    w = wild_bootstrap_se(X, df.y.to_numpy(), e, df.cl.to_numpy(), 3, n_bootstrap=B, weight_type=wt, alpha=alpha, seed=seed)
    mon.close("plumbing", [r.se, r.p_value, *r.conf_int, r.t_stat], [w.se, w.p_value, w.ci_lower, w.ci_upper, w.t_stat_original], rtol=1e-6, atol=1e-9,
              msg="estimator vs direct call")
    mon.close("plumbing", r.att / np.sqrt(r.vcov[3, 3]), r.t_stat, rtol=1e-6, msg="stored covariance against the reported cluster-robust t")
    mon.check("plumbing", r.inference_method == "wild_bootstrap" and r.n_bootstrap == B and r.n_clusters == df.cl.nunique(), "reported method/counts")
    perm = refs.relayout(rng, df)
    r2 = DifferenceInDifferences(inference="wild_bootstrap", cluster="cl", n_bootstrap=B, bootstrap_weights=wt, seed=seed, alpha=alpha).fit(perm, "y", "treated", "post", **kw)
    mon.close("row-order", [r2.se, r2.p_value, *r2.conf_int], [r.se, r.p_value, *r.conf_int], rtol=1e-6, atol=1e-8, msg="row order")
    dup = df.copy()
    dup["x1b"] = 2 * dup["x1"] if "x1" in dup else 2.0 * dup["treated"]
    r3 = DifferenceInDifferences(inference="wild_bootstrap", cluster="cl", n_bootstrap=B, bootstrap_weights=wt, seed=seed, alpha=alpha,
                                 rank_deficient_action="silent").fit(dup, "y", "treated", "post", covariates=covs + ["x1b"])
    mon.close("collinear", [r3.att, r3.se, *r3.conf_int], [r.att, r.se, *r.conf_int], rtol=1e-6, atol=1e-8, msg="redundant covariate")
    mon.state("plumb", wt, len(covs), B)


def k_absorbed(mon, rng, tier):
    """The bootstrap of an absorbed (or two-way within) regression is that of the same regression with dummies."""
    n, T = int(rng.integers(8, 22)), int(rng.integers(3, 6))
    u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n)
    df = pd.DataFrame({"unit": u, "t": t, "g": u // int(rng.integers(2, 5)), "treated": (u % 2), "post": (t >= T // 2 + T % 2).astype(int)})
    df["x"] = rng.normal(0, 1, len(df))
    df["y"] = (float(pick(rng, 0, 50)) + rng.normal(0, 1, n)[u] + rng.normal(0, 1, T)[t] + float(pick(rng, 0, 0.4, 1)) * df.treated * df.post
               + rng.normal(0, 0.7, n)[u] * df.post + rng.normal(0, 1, len(df)))
    df["cl"] = u // int(rng.integers(1, 3))
    df = df[rng.random(len(df)) >= float(pick(rng, 0, 0, 0.12))].reset_index(drop=True)
    c = df.groupby(["treated", "post"]).size()
    if len(c) < 4 or c.min() < 4 or df.cl.nunique() < 4:
        return
    df["D"] = df.treated * df.post
    covs = ["x"] if maybe(rng) else None
    ab, cl, B, alpha = pick(rng, ["unit"], ["g"], ["unit", "t"], ["t"]), pick(rng, "unit", "cl"), 99, alpha_of(rng)
    k = dict(inference="wild_bootstrap", cluster=cl, n_bootstrap=B, seed=int(rng.integers(1000)), alpha=alpha, bootstrap_weights=pick(rng, "rademacher", "webb", "mammen"))
    tag = f"absorb={ab} cluster={cl} covs={covs}"
    fit = lambda **e: DifferenceInDifferences(rank_deficient_action="silent", **k).fit(df, "y", "treated", "post", covariates=covs, **e)
    a, b = fit(absorb=ab), fit(fixed_effects=ab)
    pairs = [(tag, a, b)]
    if maybe(rng):
        w = TwoWayFixedEffects(**k).fit(df, "y", "D", "t", unit="unit", covariates=covs)
        pairs.append((f"two-way within, {tag}", w, b if ab == ["unit", "t"] else fit(fixed_effects=["unit", "t"])))
    for m, q, z in pairs:
        mon.close("absorbed", [q.att, q.se, *q.conf_int], [z.att, z.se, *z.conf_int], rtol=1e-6, atol=1e-7, msg=f"{m}: estimate, SE, interval against dummies")
        mon.check("absorbed", abs(q.p_value - z.p_value) < 1.5 / B, f"{m}: bootstrap p {q.p_value} against dummies {z.p_value}")
    mon.state("absorbed", tuple(ab), cl, bool(covs), len(df) == n * T)


def k_null(mon, rng, tier):
    X, y, cl, c, G, eff, lab = design(rng, G=int(rng.integers(14, 24)), effect=0.0, n_per=6)
    dg = (np.arange(G) % 2).astype(float)
    X[:, 1] = dg[cl]
    X[:, 3] = X[:, 1] * X[:, 2]
    e = refs.ols(X, y)[1]
    r = wild_bootstrap_se(X, y, e, c, 3, n_bootstrap=99, seed=int(rng.integers(1 << 20)))
    mon.stream("p0", float(r.p_value))
    mon.saw("null-sample")


def k_power(mon, rng, tier):
    X, y, cl, c, G, eff, lab = design(rng, G=20, effect=0.0, n_per=6)
    dg = (np.arange(G) % 2).astype(float)
    X[:, 1] = dg[cl]
    X[:, 3] = X[:, 1] * X[:, 2]
    y = y + 8 * X[:, 3]
    r = wild_bootstrap_se(X, y, refs.ols(X, y)[1], c, 3, n_bootstrap=199, weight_type=pick(rng, "rademacher", "webb", "mammen"), seed=1)
    mon.check("power", r.p_value <= 0.03, f"overwhelming effect, p={r.p_value}, t={r.t_stat_original}")
    mon.check("power", r.ci_lower > 0, f"interval {r.ci_lower, r.ci_upper}")
    mon.state("power", r.weight_type)


def k_errors(mon, rng, tier):
    X, y, cl, c, G, eff, lab = design(rng)
    e = refs.ols(X, y)[1]
    V = (ValueError,)
    mon.raises("refused", V, lambda: wild_bootstrap_se(X, y, e, np.zeros(len(y)), 3, n_bootstrap=9), "one cluster")
    mon.raises("refused", V, lambda: wild_bootstrap_se(X, y, e, c, 3, n_bootstrap=9, weight_type="normal"), "unknown weights")
    bad = cl.astype(float)
    bad[int(rng.integers(len(bad)))] = np.nan
    mon.raises("refused", V, lambda: wild_bootstrap_se(X, y, e, bad, 3, n_bootstrap=9), "missing cluster label")
    mon.state("errors")


def FINAL(mon, streams, tier):
    for wt in ("rademacher", "webb", "mammen"):
        z = np.array(streams.get(f"spread-{wt}", []))
        if len(z) >= 12:
            m = z.mean(0) * np.sqrt(len(z))
            mon.check("draw-moments", np.all(np.abs(m) < 5), f"{wt} draws over {len(z)} samples: variance and skewness are {m.round(1)} standard errors away from the cluster scores times the documented weights")
    p = np.array(streams.get("p0", []))
    n = len(p)
    if n < 100:
        return
    D = stats.kstest(p - 0.005, "uniform").statistic
    mon.check("uniform", D <= 2.2 / np.sqrt(n) + 0.02, f"p-values of {n} effect-free samples not uniform: KS={D:.3f}, mean={p.mean():.3f}, P(p<.1)={np.mean(p<.1):.3f}")
    mon.describe(n=n, ks=D, mean=p.mean(), below10=np.mean(p < 0.1))


KINDS = {"direct": (k_direct, 200, 3000), "plumb": (k_plumb, 30, 600), "absorbed": (k_absorbed, 60, 800), "null": (k_null, 240, 3000), "power": (k_power, 10, 100), "errors": (k_errors, 8, 50)}
