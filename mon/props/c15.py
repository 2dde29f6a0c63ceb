"""C15: sensitivity bounds under bounded violations of parallel trends."""
import numpy as np
import pandas as pd
from scipy.optimize import linprog

from mon import refs
from mon.gen import pick, maybe, alpha_of
from mon.props.c08 import make as cs_make, kw_of as cs_kw, ref_cells
from mon.props.c09 import psi_of, weights, wif_cells
from diff_diff import CallawaySantAnna, HonestDiD, MultiPeriodDiD, compute_honest_did
from diff_diff.results import MultiPeriodDiDResults, PeriodEffect
from diff_diff.staggered_results import CallawaySantAnnaResults

RULE = ("event studies from real multi-period fits, real staggered fits, and hand-built ones with any number of pre/post periods, names, covariances and scales; "
        "all three restrictions, strengths from 0 to very large, any weighting vector and level; non-trivial = distinct (source, restriction, shape, weighting, strength class) state")
NOTE = ("Bounds are compared with closed forms (relative magnitude: sum of |weights| times the largest allowed violation; smoothness: support function of the "
        "second-difference parametrisation) and, for the combined restriction, with an independent linear programme; breakdown values are verified by refitting on both sides.")
ASSUMPTIONS = ("For multi-period results, which contain no pre-period coefficients, the documented fallback scale (the average effect's SE) stands for the largest pre-period "
               "violation. The smoothness restriction leaves pre-period violations free (known finding), so its support function is over all linear trends.")
SCALE = 3                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"original": 150, "original-se": 150, "bounds-rm": 150, "bounds-sd": 60, "bounds-combined": 60, "interval": 200, "monotone": 60, "breakdown": 60,
            "same-either-way": 20, "refuses": 20, "grid": 40}


def hand(rng, kind=None):
    """A hand-built event study in either container; returns results and (beta_pre, beta_post, Sigma_post, max_pre)."""
    kind = kind or pick(rng, "mp", "mp-nopre", "cs")
    npre, npost = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    s = float(pick(rng, 1, 1, 1e-3, 1e4))
    K = npre + npost
    A = rng.normal(size=(K, K))
    V = (A @ A.T / K + 0.2 * np.eye(K)) * 0.1 * s * s
    b = np.r_[rng.normal(0, 0.3, npre), rng.normal(float(pick(rng, 0, 1, 4)), 0.3, npost)] * s
    b[:npre] *= float(pick(rng, 1, 1, 1, 1e-3, 0))        # near-perfect and perfect pre-trends
    if kind == "cs":
        V = np.diag(np.diag(V))
    vp = V[npre:, npre:]
    return kind, b[:npre], b[npre:], V, s


def container(kind, bpre, bpost, V, rng=None, treat=None, overall=0.5):
    npre, npost = len(bpre), len(bpost)
    se = np.sqrt(np.diag(V))
    if kind == "cs":
        es = {}
        for i in range(npre):
            es[i - npre - 1 + 0] = dict(effect=float(bpre[i]), se=float(se[i]), t_stat=0.0, p_value=0.5, conf_int=(0.0, 1.0), n_groups=1)
        es[-1] = dict(effect=0.0, se=np.nan, t_stat=np.nan, p_value=np.nan, conf_int=(np.nan, np.nan), n_groups=0)
        for i in range(npost):
            es[i] = dict(effect=float(bpost[i]), se=float(se[npre + i]), t_stat=0.0, p_value=0.5, conf_int=(0.0, 1.0), n_groups=1)
        return CallawaySantAnnaResults(group_time_effects={}, overall_att=1.0, overall_se=overall, overall_t_stat=1.0, overall_p_value=0.5, overall_conf_int=(0, 1),
                                       groups=[5], time_periods=list(range(10)), n_obs=100, n_treated_units=5, n_control_units=5, event_study_effects=es)
    treat = treat or "treated"
    pre = list(range(npre))
    post = list(range(npre + 1, npre + 1 + npost))
    names, vals = ["const", treat], [1.0, 2.0]
    names += [f"period_{p}" for p in post]
    vals += [0.1] * npost
    use = (list(range(npre)) if kind == "mp" else []) + list(range(npre, npre + npost))
    labels = pre + post
    ball = np.r_[bpre, bpost]
    names += [f"{treat}:period_{labels[i]}" for i in use]
    vals += [float(ball[i]) for i in use]
    k = len(names)
    B = np.eye(k) * 7.0 * V.max()
    idx = list(range(k - len(use), k))
    B[np.ix_(idx, idx)] = V[np.ix_(use, use)]
    if rng is not None and maybe(rng):                       # coefficient order is the covariance order
        perm = rng.permutation(k)
        names, vals, B = [names[i] for i in perm], [vals[i] for i in perm], B[np.ix_(perm, perm)]
    eff = {p: PeriodEffect(period=p, effect=float(bpost[i]), se=float(se[npre + i]), t_stat=0.0, p_value=0.5, conf_int=(0.0, 1.0)) for i, p in enumerate(post)}
    return MultiPeriodDiDResults(period_effects=eff, avg_att=float(bpost.mean()), avg_se=overall, avg_t_stat=1.0, avg_p_value=0.5, avg_conf_int=(0.0, 1.0), n_obs=100,
                                 n_treated=50, n_control=50, pre_periods=pre, post_periods=post, coefficients=dict(zip(names, vals)), vcov=B)


def study(mon, rng):
    """-> results, bpre, bpost, Spost, maxpre, number of pre periods, scale, source"""
    src = pick(rng, "hand", "hand", "mp", "cs")
    if src == "hand":
        kind, bpre, bpost, V, s = hand(rng)
        ov = 0.4 * s
        r = container(kind, bpre, bpost, V, rng, treat=pick(rng, "treated", "ever", "d"), overall=ov)
        mp = np.abs(bpre).max() if kind in ("mp", "cs") else ov
        n = len(bpre)
        return r, bpre, bpost, V[n:, n:], mp, n, s, kind
    if src == "mp":
        n, T = int(rng.integers(16, 40)), int(pick(rng, rng.integers(3, 8), rng.integers(3, 8), rng.integers(3, 8), 12))
        k = int(rng.integers(1, T)) if T < 12 else int(pick(rng, 1, 1, 3, 11))
        s = float(pick(rng, 1, 100))
        u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n)
        d = (u < n // 3).astype(int)
        name = pick(rng, "treated", "ever", "T")
        y = s * (rng.normal(size=n)[u] + 0.3 * t + float(pick(rng, 0, 1, 3)) * d * (t >= k) + rng.normal(size=n * T))
        df = pd.DataFrame({"unit": u, "time": t, name: d, "y": y})
        cl = pick(rng, None, "unit")
        r = MultiPeriodDiD(cluster=cl).fit(df, outcome="y", treatment=name, time="time", post_periods=list(range(k, T)))
        # an explicit saturated regression: the covariance of the interactions
        X = np.column_stack([np.ones(len(y)), d] + [(t == p) * 1.0 for p in range(1, T)] + [(t == p) * d * 1.0 for p in range(k, T)])
        b = refs.ols(X, y)[0]
        e = y - X @ b
        V = refs.vcov(X, e, "cluster" if cl else "hc1", u if cl else None)
        m = T - k
        bp = np.array([r.period_effects[p].effect for p in range(k, T)])
        mon.close("source", bp, b[-m:], rtol=1e-6, atol=1e-8 * s, msg="event study itself")
        return r, np.array([]), bp, V[-m:, -m:], r.avg_se, k, s, "mp-real"
    for _ in range(20):
        df, m = cs_make(rng)
        kw = cs_kw(rng)
        cells, units, g = ref_cells(df, kw)
        if not cells:
            continue
        boot = {"n_bootstrap": 40, "seed": int(rng.integers(1, 10 ** 6))} if maybe(rng, 0.3) else {}
        r = CallawaySantAnna(**{**kw, **boot}).fit(df, "y", "unit", "time", "first_treat", aggregate="event_study")
        cells = {(float(a), float(b)): v for (a, b), v in cells.items()}
        gte = {(float(a), float(b)): v for (a, b), v in r.group_time_effects.items()}
        if set(gte) != set(cells):
            continue
        W, psi = weights(gte, kw["anticipation"], None), psi_of(cells)
        es = {float(k): v for k, v in r.event_study_effects.items()}
        if any(not v["se"] > 0 for v in es.values() if v["n_groups"] > 0):
            continue
        pre = sorted(e for e, v in es.items() if e < 0 and v["n_groups"] > 0)
        post = sorted(e for e, v in es.items() if e >= 0 and v["n_groups"] > 0)
        if not post:
            continue
        P = np.array([sum(x * psi[k] for k, x in W[("e", e)].items()) + wif_cells(W[("e", e)], gte, cells) for e in post])
        bpre = np.array([es[e]["effect"] for e in pre])
        bpost = np.array([es[e]["effect"] for e in post])
        if boot:        # the reported (bootstrap) standard errors with the correlations of the joint influence functions
            P = P * (np.array([es[e]["se"] for e in post]) / np.sqrt((P * P).sum(1)))[:, None]
        mp = np.abs(bpre).max() if len(pre) else r.overall_se
        return r, bpre, bpost, P @ P.T, mp, len(pre), float(np.abs(bpost).max() + np.sqrt((P * P).sum(1)).max()), "cs-real-" + kw["base_period"]
    return None


def sd_coef(l, npre):
    """Second-difference parametrisation: delta_t = a + b t + sum_k s_k (t-k-1)_+ ; returns (coef a, coef b, coefs s)."""
    K = npre + len(l)
    t = np.arange(K)
    w = np.r_[np.zeros(npre), l]
    return w.sum(), (w * t).sum(), np.array([(w * np.maximum(t - k - 1, 0)).sum() for k in range(max(K - 2, 0))])


def contrast(rng, m):
    """A weighting vector with no level and no slope (so the smoothness set bounds it)."""
    A = np.vstack([np.ones(m), np.arange(m)])
    v = rng.normal(size=m)
    v -= A.T @ np.linalg.solve(A @ A.T, A @ v)
    # exact zeros matter for boundedness: use an integer second/third difference instead of the projection
    d = np.zeros(m)
    i = int(rng.integers(0, m - 2))
    d[i:i + 3] = [1, -2, 1]
    return d * float(pick(rng, 1, -1, 0.5, 2))


def expect(method, l, bpost, npre, M, mp):
    th = l @ bpost
    if method == "relative_magnitude":
        w = M * mp * np.abs(l).sum()
        return th - w, th + w
    a, b, c = sd_coef(l, npre)
    if method == "smoothness":
        if abs(a) > 1e-12 or abs(b) > 1e-12 or len(l) + npre < 3:
            return -np.inf, np.inf
        w = M * np.abs(c).sum()
        return th - w, th + w
    K = npre + len(l)
    t = np.arange(K)
    S = np.column_stack([np.ones(K), t] + [np.maximum(t - k - 1, 0) for k in range(max(K - 2, 0))])
    post = S[npre:]
    B = M * mp
    obj = l @ post
    bd = [(None, None), (None, None)] + [(-M, M)] * max(K - 2, 0)
    sc = max(M, B, 1e-30)
    bd = [(None, None), (None, None)] + [(-M / sc, M / sc)] * max(K - 2, 0)
    r = linprog(-obj, A_ub=np.vstack([post, -post]), b_ub=np.full(2 * len(l), B / sc), bounds=bd, method="highs")
    w = -r.fun * sc
    return th - w, th + w


def k_bounds(mon, rng, tier):
    st = study(mon, rng)
    if st is None:
        return
    r, bpre, bpost, S, mp, npre, s, src = st
    m = len(bpost)
    method = pick(rng, "relative_magnitude", "smoothness", "combined")
    l, how = None, "uniform"
    if maybe(rng, 0.5):
        how = pick(rng, "random", "first", "sum", "contrast")
        l = {"random": rng.normal(size=m), "first": np.eye(m)[0], "sum": np.ones(m), "contrast": contrast(rng, m) if m >= 3 else -np.ones(m)}[how]
    M = float(pick(rng, 0, 0, 0.3, 1, 2, rng.uniform(0, 3), 50))
    if method != "relative_magnitude":
        M *= s
    al = alpha_of(rng)
    arg = l if l is None or maybe(rng) else list(l)
    h = HonestDiD(method=method, M=M if maybe(rng) else 0.7, alpha=al, l_vec=arg)
    mon.describe(method=method, M=M, alpha=al, l=l, src=src, bpre=bpre, bpost=bpost, S=S, mp=mp)
    q = h.fit(r, M=M)
    lv = np.full(m, 1 / m) if l is None else l
    se = np.sqrt(lv @ S @ lv)
    mon.state(src, method, npre, m, how, M == 0)
    sc = max(s, abs(M), abs(bpost).max())
    mon.close("original", q.original_estimate, lv @ bpost, rtol=1e-8, atol=1e-9 * s, msg="weighted effect")
    mon.close("original-se", q.original_se, se, rtol=1e-5, atol=1e-8 * s, msg="SE of the weighted effect")
    if src == "mp-real" and l is None:
        mon.close("original-se", [q.original_estimate, q.original_se], [r.avg_att, r.avg_se], rtol=1e-6, atol=1e-9 * s, msg="reported average effect")
    mon.check("echo", q.M == M and q.method == method and q.alpha == al and q.original_results is r, f"{q.M, q.method, q.alpha}")
    lo, hi = expect(method, lv, bpost, npre, M, mp)
    name = {"relative_magnitude": "bounds-rm", "smoothness": "bounds-sd", "combined": "bounds-combined"}[method]
    if np.isinf(lo):
        mon.check(name, q.lb == -np.inf and q.ub == np.inf, f"{[q.lb, q.ub]} but any linear violation is allowed")
    else:
        mon.close(name, [q.lb, q.ub], [lo, hi], rtol=1e-6, atol=1e-7 * sc, msg="bounds")
    z = refs.crit(al)
    if np.isfinite(q.lb):
        mon.close("interval", [q.ci_lb, q.ci_ub], [q.lb - z * se, q.ub + z * se], rtol=1e-6, atol=1e-6 * sc, msg="robust interval")
    else:
        mon.check("interval", q.ci_lb == -np.inf and q.ci_ub == np.inf, "interval of unbounded set")
    mon.check("interval", q.ci_lb <= q.lb <= q.ub <= q.ci_ub, f"{q.ci_lb, q.lb, q.ub, q.ci_ub}")
    mon.check("flags", q.is_significant == (q.ci_lb > 0 or q.ci_ub < 0) and q.significance_stars == ("*" if q.is_significant else ""), "significance")
    if np.isfinite(q.lb):
        mon.close("flags", [q.identified_set_width, q.ci_width], [q.ub - q.lb, q.ci_ub - q.ci_lb], rtol=1e-9, atol=1e-12 * sc, msg="widths")
    if method == "relative_magnitude" and M == 0:
        mon.close("interval", [q.lb, q.ub, q.ci_lb, q.ci_ub], [lv @ bpost] * 2 + [lv @ bpost - z * se, lv @ bpost + z * se], rtol=1e-6, atol=1e-7 * s, msg="no violation allowed")
    if method == "smoothness" and how == "uniform" and src.endswith("universal") and npre >= 2:
        # the reported pre-period coefficients pin the pre-period violations down: the compatible set is finite
        mon.check("bounds-sd-pre", np.isfinite(q.lb) and np.isfinite(q.ub), f"smoothness bounds {[q.lb, q.ub]} ignore the pre-period coefficients",
                  key="smoothness-ignores-pre-period-coefficients")
    if l is None and q.alpha == al:
        c = compute_honest_did(r, method=method, M=M, alpha=al)
        mon.check("convenience", [c.lb, c.ub, c.ci_lb, c.ci_ub] == [q.lb, q.ub, q.ci_lb, q.ci_ub], "compute_honest_did differs")


def k_monotone(mon, rng, tier):
    st = study(mon, rng)
    if st is None:
        return
    r, bpre, bpost, S, mp, npre, s, src = st
    m = len(bpost)
    method = pick(rng, "relative_magnitude", "relative_magnitude", "combined", "smoothness")
    l = contrast(rng, m) if method == "smoothness" and m >= 3 else (None if maybe(rng, 0.6) else rng.normal(size=m))
    h = HonestDiD(method=method, alpha=alpha_of(rng), l_vec=l)
    f = 1.0 if method == "relative_magnitude" else s
    grid = [float(x) * f for x in rng.permutation([0, 0.1, 0.5, 1, 2, 4, 8][int(rng.integers(0, 4)):])]
    if maybe(rng):
        grid = sorted(grid)
    grid_in = pick(rng, list(grid), np.array(grid))
    mon.describe(method=method, grid=grid, l=l, src=src, bpre=bpre, bpost=bpost, S=S)
    sa = h.sensitivity_analysis(r, M_grid=grid_in)
    mon.check("grid", list(sa.M_values) == grid and sa.method == method and sa.alpha == h.alpha, "grid echo")
    out = []
    for i, M in enumerate(grid):
        q = h.fit(r, M=M)
        mon.check("grid", tuple(sa.bounds[i]) == (q.lb, q.ub) and tuple(sa.robust_cis[i]) == (q.ci_lb, q.ci_ub), f"grid entry {i} M={M} differs from a direct fit")
        out.append((M, q))
    fr = sa.to_dataframe()
    mon.check("grid", list(fr["M"]) == grid and list(fr.ci_lb) == [c[0] for c in sa.robust_cis] and list(fr.ub) == [b[1] for b in sa.bounds], "data frame differs")
    out.sort(key=lambda x: x[0])
    tol = 1e-7 * max(s, grid[-1], abs(bpost).max())
    for (M1, a), (M2, b) in zip(out, out[1:]):
        mon.check("monotone", b.lb <= a.lb + tol and b.ub >= a.ub - tol and b.ci_lb <= a.ci_lb + tol and b.ci_ub >= a.ci_ub - tol, f"M={M1}->{M2}: {[a.lb, a.ub]} {[b.lb, b.ub]}")
    sig = lambda M: h.fit(r, M=M).is_significant
    bm = sa.breakdown_M
    top = max(grid)
    if bm is None:
        mon.check("breakdown", sig(0) and all(q.is_significant for _, q in out) and not sa.has_breakdown, f"no breakdown reported, but flags {[(M, q.is_significant) for M, q in out]}")
    elif bm == 0:
        mon.check("breakdown", not sig(0), "breakdown 0 but significant at M=0")
    else:
        e = top * 1e-5
        mon.check("breakdown", sig(max(bm - e, 0)) and not sig(bm + e) and 0 < bm <= top, f"breakdown {bm} does not separate: {sig(max(bm - e, 0))}, {sig(bm + e)}")
    tol = float(pick(rng, 0.01, 0.001))
    bv = h.breakdown_value(r, tol=tol)
    if bv is None:
        mon.check("breakdown", sig(1e6 * f), "breakdown_value None, but the interval includes zero at a huge strength")
    elif bv == 0:
        mon.check("breakdown", not sig(0), "breakdown_value 0 but significant at M=0")
    else:
        mon.check("breakdown", sig(max(bv - tol, 0)) and not sig(bv + tol), f"breakdown_value {bv} does not separate")
    mon.state("mono", src, method, bm is None, bm == 0, bv is None)


def k_same(mon, rng, tier):
    """The same event study in either container gives the same bounds."""
    _, bpre, bpost, V, s = hand(rng, "cs")
    a = container("cs", bpre, bpost, V)
    b = container("mp", bpre, bpost, V, rng, treat=pick(rng, "treated", "grp"))
    al = alpha_of(rng)
    for method in ("relative_magnitude", "smoothness", "combined"):
        l = contrast(rng, len(bpost)) if method == "smoothness" and len(bpost) >= 3 else None
        h = HonestDiD(method=method, alpha=al, l_vec=l)
        for M in (0.0, 0.5, 2.0):
            x, y = h.fit(a, M=M), h.fit(b, M=M)
            p, q = [x.lb, x.ub, x.ci_lb, x.ci_ub], [y.lb, y.ub, y.ci_lb, y.ci_ub]
            if np.isfinite(p).all():
                mon.close("same-either-way", q, p, rtol=1e-8, atol=1e-9 * s, msg=f"{method} M={M} multi-period vs staggered container")
            else:
                mon.check("same-either-way", p == q, f"{method} {p} vs {q}")
    mon.state("same", len(bpre), len(bpost))


def k_edge(mon, rng, tier):
    kind, bpre, bpost, V, s = hand(rng)
    r = container(kind, bpre, bpost, V)
    m = len(bpost)
    M = -float(pick(rng, 0.01, 1, 5))
    method = pick(rng, "relative_magnitude", "smoothness", "combined")
    mon.raises("refuses", (ValueError,), lambda: HonestDiD(method=method, M=M), msg="negative M")
    mon.raises("refuses", (ValueError,), lambda: HonestDiD(method=method).fit(r, M=M), msg="negative M at fit")
    mon.raises("refuses", (ValueError,), lambda: HonestDiD(method=method).sensitivity_analysis(r, M_grid=[0, M]), msg="negative M in grid")
    mon.raises("refuses", (ValueError,), lambda: compute_honest_did(r, method=method, M=M), msg="negative M")
    mon.raises("refuses", (ValueError,), lambda: HonestDiD(method="other"), msg="method")
    mon.raises("refuses", (ValueError,), lambda: HonestDiD(alpha=float(pick(rng, 0, 1, -0.1, 2))), msg="alpha")
    mon.raises("refuses", (ValueError,), lambda: HonestDiD(method=method, l_vec=np.ones(m + 1)).fit(r), msg="l_vec length")
    mon.raises("refuses", (TypeError,), lambda: HonestDiD().fit({"effect": 1}), msg="unsupported results")
    c = container("cs", bpre, bpost, V)
    c.event_study_effects = None
    mon.raises("refuses", (ValueError,), lambda: HonestDiD().fit(c), msg="staggered results without event study")
    d = HonestDiD(method=method)
    mon.check("defaults", d.M == (1.0 if method == "relative_magnitude" else 0.0), f"default M {d.M}")
    # an undefined post effect leaves nothing to call significant
    if kind != "cs":
        b = container(kind, bpre, bpost, V)
        p = b.post_periods[int(rng.integers(m))]
        b.period_effects[p].effect = b.period_effects[p].se = np.nan
        b.vcov = None
        q = HonestDiD(method="relative_magnitude").fit(b)
        mon.check("undefined", not q.is_significant and np.isnan(q.ci_lb) and np.isnan(q.original_estimate), f"{q!r}")
    mon.state("edge", kind, method, len(bpre), m)


KINDS = {"bounds": (k_bounds, 900, 9000), "monotone": (k_monotone, 120, 1000), "same": (k_same, 30, 300), "edge": (k_edge, 30, 200)}
