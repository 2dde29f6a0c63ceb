"""C14: triply robust panel estimator."""
import itertools
import math
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of
from diff_diff import TROP

RULE = ("small factor-model panels (5-12 units, 5-9 periods, simultaneous or staggered absorbing treatment, random missing rows, any labels), both methods, "
        "singleton and multi-point tuning grids including infinity, both variance methods; non-trivial = distinct (method, shape, lambda class, missing, variance) state")
NOTE = ("Counterfactuals are compared with weighted dummy-variable regressions; with a nuclear-norm penalty the global optimum is certified from the sub-gradient "
        "conditions on the reported effects and factor matrix; every bootstrap and jackknife draw must be the library's own fit on an explicitly resampled panel.")
SCALE = 1.5                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"flat-counterfactual": 80, "weighted-counterfactual": 80, "optimality": 40, "loocv-score": 20, "grid-minimum": 60, "inference": 60,
            "bootstrap-draws": 8, "jackknife-draws": 8, "equivariance": 40, "refuses": 60, "joint-optimum": 60}
INF = float("inf")


def make(rng, joint=False, missing=None, nt=None, units=None, periods=None, single=False):
    N = units or int(rng.integers(6, 12))
    T = periods or int(rng.integers(5, 9))
    nt = nt or int(rng.integers(1, max(2, N // 2)))
    start = int(rng.integers(2, T - 1))
    g = np.full(N, 10 ** 6)
    g[:nt] = start if (joint or maybe(rng, 0.4)) else rng.integers(2, T, nt)
    if single:
        g[:] = 10 ** 6
        g[0] = T - 1
    level, scale = float(pick(rng, 0, 10, 1000)), 1.0
    F = rng.normal(size=(T, 2)) @ rng.normal(size=(2, N)) * float(pick(rng, 0.3, 1, 2))
    Y = level + rng.normal(size=N)[None] * 2 + rng.normal(size=T)[:, None] + F + rng.normal(size=(T, N)) * 0.5
    D = (np.arange(T)[:, None] >= g[None]).astype(int)
    Y = Y + D * rng.normal(2, 1, size=(T, N))
    lab = pick(rng, list(range(N)), [f"u{i:02d}" for i in range(N)], list(range(100, 100 + 3 * N, 3)))
    rng.shuffle(lab)
    t0 = int(pick(rng, 0, 1, 2001))
    ii, tt = np.meshgrid(np.arange(N), np.arange(T))
    df = pd.DataFrame({"u": [lab[i] for i in ii.ravel()], "t": tt.ravel() + t0, "y": Y.ravel(), "d": D.ravel()})
    if missing if missing is not None else maybe(rng, 0.4):
        keep = rng.random(len(df)) > 0.12
        keep |= (ii.ravel() >= N - 2)                        # two complete controls keep everything connected
        keep |= (tt.ravel() < 2)
        first = tt.ravel() == np.minimum(g[ii.ravel()], T - 1)
        keep |= first
        df = df[keep]
    df = df.sample(frac=1, random_state=int(rng.integers(1 << 30))).reset_index(drop=True)
    if maybe(rng, 0.3):
        df["d"] = df.d.astype(pick(rng, float, bool))
    return df


def mats(df):
    us, ts = sorted(df.u.unique()), sorted(df.t.unique())
    Y = df.pivot(index="t", columns="u", values="y").reindex(index=ts, columns=us).to_numpy(float)
    D = df.assign(d=df.d.astype(float)).pivot(index="t", columns="u", values="d").reindex(index=ts, columns=us).to_numpy(float)
    return Y, D, us, ts


def kw_of(rng, method, lt, lu, ln, **k):
    d = dict(method=method, lambda_time_grid=[lt], lambda_unit_grid=[lu], lambda_nn_grid=[ln], max_loocv_samples=2, n_bootstrap=2, seed=int(rng.integers(99)),
             max_iter=3000, tol=1e-9)
    d.update(k)
    return d


def fit(kw, df):
    return TROP(**kw).fit(df, outcome="y", treatment="d", unit="u", time="t")


def fin(x):
    return 0.0 if np.isinf(x) else x


def two_weights(Y, D, t, i, lt, lu):
    """Documented weights for target (t, i): control cells of units untreated at t, and of unit i."""
    T, N = Y.shape
    obs = ~np.isnan(Y)
    un = obs & (np.nan_to_num(D) == 0)
    th = np.exp(-fin(lt) * np.abs(np.arange(T) - t))
    om = np.zeros(N)
    for j in range(N):
        if j == i:
            om[j] = 1.0
        elif np.nan_to_num(D[t, j]) == 0:
            if fin(lu) == 0:
                om[j] = 1.0
            else:
                v = un[:, i] & un[:, j]
                v[t] = False
                om[j] = np.exp(-fin(lu) * np.sqrt(((Y[v, i] - Y[v, j]) ** 2).mean())) if v.any() else 0.0
    return np.outer(th, om) * un


def wls(Y, W, extra=None):
    T, N = Y.shape
    X = np.zeros((T, N, T + N))
    for t in range(T):
        X[t, :, t] = 1
    for i in range(N):
        X[:, i, T + i] = 1
    X = X.reshape(T * N, -1)
    if extra is not None:
        X = np.column_stack([X, extra.ravel()])
    m = W.ravel() > 0
    sw = np.sqrt(W.ravel()[m])
    y = Y.ravel()[m]
    c = y.mean()
    b = np.linalg.lstsq(X[m] * sw[:, None], (y - c) * sw, rcond=1e-13)[0]
    return b[T:T + N] + c, b[:T], (b[-1] if extra is not None else None)


def keys(mon, r, df, Y, D, us, ts):
    tc = {(us[i], ts[t]) for t in range(len(ts)) for i in range(len(us)) if D[t, i] == 1}
    mon.check("treated-cells", set(r.treatment_effects) == tc, f"{sorted(r.treatment_effects)[:4]} vs {sorted(tc)[:4]}")
    mon.check("counts", (r.n_obs, r.n_treated, r.n_control, r.n_treated_obs) == (len(df), int((D == 1).any(0).sum()), int((~(D == 1).any(0)).sum()), len(tc)),
              f"{(r.n_obs, r.n_treated, r.n_control, r.n_treated_obs)}")
    first = min(t for t in range(len(ts)) if (D[t] == 1).any())
    mon.check("counts", (r.n_pre_periods, r.n_post_periods) == (first, sum((D[t] == 1).any() for t in range(len(ts)))), f"{(r.n_pre_periods, r.n_post_periods)}")
    e = r.get_treatment_effects_df()
    mon.check("treated-cells", {(a, b): c for a, b, c in zip(e.unit, e.time, e.effect)} == r.treatment_effects if "effect" in e else len(e) == len(tc), "effects frame differs")
    mon.close("att-mean", r.att, np.mean(list(r.treatment_effects.values())), rtol=1e-9, atol=1e-10 * np.nanstd(Y), msg="ATT is the mean over treated cells")
    s = np.linalg.svd(r.factor_matrix, compute_uv=False)
    mon.close("effective-rank", r.effective_rank, s.sum() / s[0] if s[0] > 0 else 0.0, rtol=1e-6, msg="effective rank")


def f_twostep(mon, rng, tier):
    df = make(rng)
    lt = float(pick(rng, 0, 0, INF, 0.2, 1, 2))
    lu = float(pick(rng, 0, 0, INF, 0.1, 0.5, 1))
    kw = kw_of(rng, "twostep", lt, lu, INF, max_loocv_samples=1)
    mon.describe(kw=kw, df=df)
    Y, D, us, ts = mats(df)
    r = fit(kw, df)
    flat = fin(lt) == 0 and fin(lu) == 0
    name = "flat-counterfactual" if flat else "weighted-counterfactual"
    mon.state("two", Y.shape, flat, bool(np.isnan(Y).any()), int((D == 1).any(0).sum()))
    keys(mon, r, df, Y, D, us, ts)
    s = np.nanstd(Y)
    mon.check("selected", (r.lambda_time, r.lambda_unit, r.lambda_nn) == (lt, lu, INF), f"reported {(r.lambda_time, r.lambda_unit, r.lambda_nn)}")
    for (u, t_), tau in r.treatment_effects.items():
        t, i = ts.index(t_), us.index(u)
        a, b, _ = wls(Y, two_weights(Y, D, t, i, lt, lu))
        mon.close(name, tau, Y[t, i] - a[i] - b[t], rtol=1e-4, atol=2e-4 * s, msg=f"effect of {u},{t_}")


def f_flatdid(mon, rng, tier):
    """One adoption date, complete panel, flat weights: the ATT is the plain block difference in differences."""
    df = make(rng, joint=True, missing=False)
    Y, D, us, ts = mats(df)
    tr = (D == 1).any(0)
    po = (D == 1).any(1)
    did = Y[po][:, tr].mean() - Y[~po][:, tr].mean() - Y[po][:, ~tr].mean() + Y[~po][:, ~tr].mean()
    for method in ("twostep", "joint"):
        r = fit(kw_of(rng, method, pick(rng, 0.0, INF), pick(rng, 0.0, INF), INF, max_loocv_samples=1), df)
        mon.close("flat-counterfactual", r.att, did, rtol=1e-5, atol=1e-5 * np.std(Y), msg=f"{method} ATT vs DiD")
    mon.state("did", Y.shape, int(tr.sum()))


def grad_check(mon, name, G, L, lam, s, msg):
    """G = 2 W (Y - fit) must be a sub-gradient of lam * nuclear norm at L."""
    op = np.linalg.norm(G, 2)
    mon.check(name, op <= lam * (1 + 2e-3) + 1e-5 * s, f"{msg}: dual norm {op:.6g} > {lam}")
    nn = np.linalg.svd(L, compute_uv=False).sum()
    mon.check(name, abs((G * L).sum() - lam * nn) <= 2e-3 * lam * nn + 1e-4 * lam * s, f"{msg}: <G,L>={(G * L).sum():.6g} vs {lam * nn:.6g}")


def f_nuclear(mon, rng, tier):
    """One treated cell: reported effects and factor matrix are those of its single fit, so optimality is checkable."""
    df = make(rng, single=True)
    lt, lu, lam = float(pick(rng, 0, 0, 0.2, 0.5)), float(pick(rng, 0, 0, 0.1, 0.3)), float(pick(rng, 0.5, 1, 2, 5))
    kw = kw_of(rng, "twostep", lt, lu, lam, max_loocv_samples=1)
    mon.describe(kw=kw, df=df)
    Y, D, us, ts = mats(df)
    r = fit(kw, df)
    keys(mon, r, df, Y, D, us, ts)
    t, i = np.argwhere(D == 1)[0]
    W = two_weights(Y, D, t, i, lt, lu)
    a = np.array([r.unit_effects[u] for u in us])
    b = np.array([r.time_effects[x] for x in ts])
    L = r.factor_matrix
    s = float(np.nanstd(Y))
    E = np.where(W > 0, np.nan_to_num(Y) - a[None] - b[:, None] - L, 0.0)
    mon.close("optimality", r.treatment_effects[(us[i], ts[t])], Y[t, i] - a[i] - b[t] - L[t, i], rtol=1e-9, atol=1e-9 * max(1, abs(Y[t, i])), msg="tau")
    mon.close("optimality", (W * E).sum(0), np.zeros(len(us)), atol=1e-4 * s, msg="unit first-order condition")
    mon.close("optimality", (W * E).sum(1), np.zeros(len(ts)), atol=1e-4 * s, msg="period first-order condition")
    grad_check(mon, "optimality", 2 * W * E, L, lam, s, "twostep")
    mon.state("nuc", Y.shape, lt > 0, lu > 0, lam, int((np.linalg.svd(L, compute_uv=False) > 1e-6).sum()))


def joint_weights(Y, D, lt, lu):
    T, N = Y.shape
    tr = (D == 1).any(0)
    first = min(t for t in range(T) if (D[t] == 1).any())
    k = T - first
    th = np.exp(-fin(lt) * np.abs(np.arange(T) - (T - k / 2)))
    om = np.zeros(N)
    for j in range(N):
        d = []
        for s in range(first):
            v = Y[s, tr][~np.isnan(Y[s, tr])]
            if len(v) and not np.isnan(Y[s, j]):
                d.append((v.mean() - Y[s, j]) ** 2)
        om[j] = np.exp(-fin(lu) * np.sqrt(np.mean(d))) if d else 0.0
    return np.outer(th, om) * ~np.isnan(Y)


def f_joint(mon, rng, tier):
    df = make(rng, joint=True, missing=maybe(rng, 0.3))
    Y, D, us, ts = mats(df)
    lt, lu = float(pick(rng, 0, INF, 0.2, 1)), float(pick(rng, 0, INF, 0.1, 0.5))
    lam = float(pick(rng, INF, INF, 1, 3))
    kw = kw_of(rng, "joint", lt, lu, lam, max_loocv_samples=1)
    mon.describe(kw=kw, df=df)
    # a missing row at the adoption date reads as staggered adoption, which the joint method refuses
    r = fit(kw, df)
    keys(mon, r, df, Y, D, us, ts)
    mon.check("joint-optimum", len({float(v) for v in r.treatment_effects.values()}) == 1, "one effect for all treated cells")
    W = joint_weights(Y, D, lt, lu)
    s = float(np.nanstd(Y))
    D0 = np.nan_to_num(D)
    mon.state("joint", Y.shape, fin(lt) > 0, fin(lu) > 0, lam, bool(np.isnan(Y).any()))
    if np.isinf(lam):
        a, b, tau = wls(np.nan_to_num(Y), W, D0)
        mon.close("joint-optimum", r.att, tau, rtol=1e-5, atol=1e-6 * s, msg="weighted least squares effect")
        return
    a = np.array([r.unit_effects[u] for u in us])
    b = np.array([r.time_effects[x] for x in ts])
    L = r.factor_matrix
    E = np.where(W > 0, np.nan_to_num(Y) - a[None] - b[:, None] - L - r.att * D0, 0.0)
    E = np.where(W > 0, E - (W * E).sum() / W.sum(), 0.0)      # the intercept is not reported
    mon.close("joint-optimum", (W * E).sum(0), np.zeros(len(us)), atol=1e-4 * s, msg="unit first-order condition")
    mon.close("joint-optimum", (W * E).sum(1), np.zeros(len(ts)), atol=1e-4 * s, msg="period first-order condition")
    mon.close("joint-optimum", (W * E * D0).sum(), 0.0, atol=1e-4 * s, msg="effect first-order condition")
    grad_check(mon, "joint-optimum", 2 * W * E, L, lam, s, "joint")


def f_loocv(mon, rng, tier):
    df = make(rng, missing=False, units=int(rng.integers(5, 8)), periods=int(rng.integers(4, 7)), joint=True, nt=int(rng.integers(1, 3)))
    Y, D, us, ts = mats(df)
    lt, lu = float(pick(rng, 0, INF, 0.2, 1)), float(pick(rng, 0, 0.1, 0.5))
    s2 = Y.std() ** 2
    for method in ("twostep", "joint"):
        r = fit(kw_of(rng, method, lt, lu, INF, max_loocv_samples=1000), df)
        q = 0.0
        for t, i in np.argwhere(D == 0):
            if method == "twostep":
                W = two_weights(Y, D, t, i, lt, lu)
                W[t, i] = 0
                a, b, _ = wls(Y, W)
            else:
                W = joint_weights(Y, D, lt, lu)
                W[t, i] = 0
                a, b, _ = wls(Y, W, D)
            q += (Y[t, i] - a[i] - b[t]) ** 2
        mon.close("loocv-score", r.loocv_score, q, rtol=1e-3, atol=1e-6 * s2, msg=f"{method} leave-one-out score")
    mon.state("loocv", Y.shape, lt, lu)


def f_grid(mon, rng, tier):
    method = pick(rng, "twostep", "joint")
    df = make(rng, joint=True, missing=maybe(rng, 0.3), units=int(rng.integers(6, 9)), periods=int(rng.integers(5, 7)), nt=2)
    c = float(pick(rng, 1, 1, 1e-4, 1e3))
    df["y"] = df.y * c
    gt = [float(x) for x in rng.permutation(pick(rng, [0, 1.0], [0.2, INF, 2.0], [0.5]))]
    gu = [float(x) / c for x in rng.permutation(pick(rng, [0, 0.5], [0.1, INF], [0.3, 0]))]
    gn = [float(x) * c for x in rng.permutation(pick(rng, [INF, 1.0], [INF], [0.5, 3.0]))]
    seed = int(rng.integers(99))
    base = dict(method=method, max_loocv_samples=int(pick(rng, 3, 8)), n_bootstrap=2, seed=seed, max_iter=60)
    mon.describe(base=base, gt=gt, gu=gu, gn=gn, df=df)
    r = fit(dict(base, lambda_time_grid=list(gt), lambda_unit_grid=list(gu), lambda_nn_grid=list(gn)), df)
    sel = (r.lambda_time, r.lambda_unit, r.lambda_nn)
    mon.check("grid-minimum", r.lambda_time in gt and r.lambda_unit in gu and r.lambda_nn in gn, f"selected {sel} outside the grid")
    score = {}

    def q(l):
        if l not in score:
            score[l] = fit(dict(base, lambda_time_grid=[l[0]], lambda_unit_grid=[l[1]], lambda_nn_grid=[l[2]]), df)
        return score[l]
    one = q(sel)
    mon.close("grid-minimum", r.loocv_score, one.loocv_score, rtol=1e-9, msg="score of the selected point")
    mon.close("grid-minimum", [r.att, r.se], [one.att, one.se], rtol=1e-9, atol=1e-12 * c, msg="fit at the selected point")
    if method == "joint":
        alts = list(itertools.product(gt, gu, gn))
    else:
        alts = [(x, sel[1], sel[2]) for x in gt] + [(sel[0], x, sel[2]) for x in gu] + [(sel[0], sel[1], x) for x in gn]
    for l in alts:
        mon.check("grid-minimum", r.loocv_score <= q(l).loocv_score * (1 + 3e-6), f"{l} scores {q(l).loocv_score:.8g} below selected {sel} {r.loocv_score:.8g}")
    mon.state("grid", method, len(gt), len(gu), len(gn), sel)


def f_infer(mon, rng, tier):
    method = pick(rng, "twostep", "joint")
    vm = pick(rng, "bootstrap", "jackknife")
    df = make(rng, joint=True, missing=maybe(rng, 0.3), nt=int(rng.integers(1, 5)))
    Y, D, us, ts = mats(df)
    al = alpha_of(rng)
    lt, lu, ln = float(pick(rng, 0, 0.3)), float(pick(rng, 0, 0.3)), float(pick(rng, INF, 2.0))
    kw = kw_of(rng, method, lt, lu, ln, variance_method=vm, n_bootstrap=int(pick(rng, 10, 15)), alpha=al, max_iter=50, max_loocv_samples=1)
    mon.describe(kw=kw, df=df)
    keep = df.copy(deep=True)
    r = fit(kw, df)
    mon.check("input-untouched", df.equals(keep), "fit changed its input")
    k = int((D == 1).any(0).sum())
    d = r.bootstrap_distribution
    mon.check("inference", r.variance_method == vm and r.alpha == al, "echo")
    if vm == "bootstrap":
        mon.check("inference", d is not None and len(d) == r.n_bootstrap == kw["n_bootstrap"], f"draws {None if d is None else len(d)}")
        mon.close("inference", r.se, np.std(d, ddof=1), rtol=1e-8, atol=1e-12, msg="bootstrap SE")
    elif k < 2:
        mon.check("inference", not r.se > 0, f"SE {r.se} from one treated unit")
    else:
        mon.check("inference", len(d) == k, f"{len(d)} leave-one-out estimates for {k} treated units")
        mon.close("inference", r.se, np.sqrt((k - 1) / k * ((d - d.mean()) ** 2).sum()), rtol=1e-8, atol=1e-12, msg="jackknife SE")
        # each is the fit without that unit
        ref = []
        tr = [u for u, x in zip(us, (D == 1).any(0)) if x]
        one = dict(kw, n_bootstrap=2, variance_method="bootstrap")
        for u in tr:
            ref.append(fit(one, df[df.u != u]).att)
        mon.close("jackknife-draws", sorted(d), sorted(ref), rtol=1e-5, atol=1e-5 * np.nanstd(Y), msg="leave-one-unit-out estimates")
    n = int((D == 1).sum())
    if r.se > 1e-10:
        refs.inference(mon, "inference", r.att, r.se, r.t_stat, r.p_value, r.conf_int, al, df=max(1, n - 1), msg=f"{method} {vm}")
    mon.check("inference", r.significance_stars == refs.stars(r.p_value) and r.is_significant == bool(r.p_value < al), "significance flags")
    mon.state("inf", method, vm, min(k, 3), ln)


def f_draws(mon, rng, tier):
    """Tiny panels: every bootstrap draw is the fit of one of the enumerated stratified resamples."""
    method = pick(rng, "twostep", "joint")
    df = make(rng, joint=True, missing=False, units=5, periods=5, nt=2)
    lt, lu, ln = float(pick(rng, 0, 0.3)), float(pick(rng, 0, 0.3)), float(pick(rng, INF, 2.0))
    kw = kw_of(rng, method, lt, lu, ln, n_bootstrap=40, max_iter=60, max_loocv_samples=1, tol=1e-6)
    mon.describe(kw=kw, df=df)
    r = fit(kw, df)
    Y, D, us, ts = mats(df)
    tr = [u for u, x in zip(us, (D == 1).any(0)) if x]
    co = [u for u in us if u not in tr]
    vals, prob = [], []
    one = dict(kw, n_bootstrap=2)
    for a in itertools.combinations_with_replacement(tr, len(tr)):
        for b in itertools.combinations_with_replacement(co, len(co)):
            p = pd.concat([df[df.u == u].assign(u=f"{k:02d}") for k, u in enumerate(a + b)], ignore_index=True)
            vals.append(fit(one, p).att)
            prob.append(ways(a) * ways(b))
    vals, prob = np.array(vals), np.array(prob) / np.sum(prob)
    s = float(Y.std())
    d = np.asarray(r.bootstrap_distribution)
    far = np.abs(d[:, None] - vals[None]).min(1)
    mon.check("bootstrap-draws", (far < 1e-4 * s).all(), f"{(far >= 1e-4 * s).sum()} of {len(d)} draws are not the estimate of any stratified resample")
    mon.check("bootstrap-draws", len(np.unique(np.round(d / s, 6))) >= 6, f"only {len(np.unique(np.round(d / s, 6)))} distinct draws of {len(d)}")
    mu = float(prob @ vals)
    sd = float(np.sqrt(prob @ (vals - mu) ** 2))
    if sd > 1e-6 * s and len(d) == kw["n_bootstrap"]:
        mon.check("bootstrap-draws", abs(d.mean() - mu) < 6 * sd / np.sqrt(len(d)), f"draws average {d.mean()}; the stratified bootstrap distribution has mean {mu}, sd {sd}")
        mon.stream(f"boot-{method}", (float((d.mean() - mu) / (sd / np.sqrt(len(d)))), float(d.var(ddof=1) / sd ** 2)))
    mon.state("draws", method, lt, lu, ln)


def ways(a):
    return math.factorial(len(a)) / math.prod(math.factorial(a.count(x)) for x in set(a))


def f_equiv(mon, rng, tier):
    method = pick(rng, "twostep", "joint")
    df = make(rng, joint=True, missing=maybe(rng, 0.3))
    lt, lu, ln = float(pick(rng, 0, 0.3, 1)), float(pick(rng, 0, 0.3)), float(pick(rng, INF, 1.0, 3.0))
    kw = kw_of(rng, method, lt, lu, ln, max_iter=100, tol=1e-6, variance_method="jackknife")
    r = fit(kw, df)
    s = float(df.y.std())
    c = float(pick(rng, -1, 2, 1e-5, 1e4, -1e3))
    mon.describe(kw=kw, c=c, df=df)
    k2 = dict(kw, lambda_unit_grid=[lu / abs(c)], lambda_nn_grid=[ln * abs(c)])
    q = fit(k2, df.assign(y=df.y * c))
    tol = dict(rtol=1e-5, atol=1e-5 * s)
    mon.close("equivariance", [q.att / c, q.se / abs(c), q.loocv_score / c / c], [r.att, r.se, r.loocv_score], msg=f"{method} scaled by {c}", **tol)
    sh = float(pick(rng, 100, -1e4, 1e5))
    q = fit(kw, df.assign(y=df.y + sh))
    mon.close("equivariance", [q.att, q.se], [r.att, r.se], rtol=1e-4, atol=1e-4 * s, msg=f"{method} shifted by {sh}")
    p = df.sample(frac=1, random_state=1)
    q = fit(kw, p)
    mon.close("equivariance", [q.att, q.se, q.loocv_score], [r.att, r.se, r.loocv_score], rtol=1e-9, msg="row order")
    mon.state("eq", method, lt, lu, ln, c)


def f_refuse(mon, rng, tier):
    method = pick(rng, "twostep", "joint")
    df = make(rng, joint=True, missing=False, nt=2, units=7)
    df["d"] = df.d.astype(float)
    kw = kw_of(rng, method, 0.0, 0.0, INF, max_loocv_samples=1)
    T = sorted(df.t.unique())
    tr = sorted(df[df.d == 1].u.unique())
    start = df[df.d == 1].t.min()
    bad = {}
    b = df.copy()
    b.loc[(b.u == tr[0]) & (b.t == T[-1]), "d"] = 0
    if start < T[-1]:
        bad["not absorbing"] = b
        if start < T[-2]:
            bad["not absorbing over a gap"] = b[~((b.u == tr[0]) & (b.t == T[-2]))]
    b = df.copy()
    b.loc[(b.u == tr[0]) & (b.t == T[-1]), "d"] = 0.5
    bad["half treated"] = b
    b = df.copy()
    b.loc[b.d == 1, "d"] = 2
    bad["coded 2"] = b
    b = df.copy()
    b.loc[(b.u == tr[0]) & (b.t == T[-1]), "d"] = np.nan
    bad["missing treatment"] = b
    bad["no treated"] = df.assign(d=0.0)
    bad["no control"] = df[df.u.isin(tr)]
    bad["one pre-period"] = df[df.t >= T[T.index(start) - 1]]
    bad["treated units never seen untreated"] = df[~(df.u.isin(tr) & (df.t < start))]
    bad["no controls after treatment"] = df[df.u.isin(tr) | (df.t < start)]
    bad["missing column"] = df.drop(columns="y")
    if method == "joint":
        b = df.copy()
        b.loc[(b.u == tr[0]) & (b.t == start), "d"] = 0
        if start < T[-1]:
            bad["staggered"] = b
    else:
        bad["one treated unit never seen untreated"] = df[~((df.u == tr[0]) & (df.t < start))]
        bad["no control in one treated period"] = df[df.u.isin(tr) | (df.t != T[-1])]
    mon.describe(kw=kw, df=df)
    for k, b in bad.items():
        mon.raises("refuses", (ValueError,), lambda b=b: fit(kw, b), msg=f"{method}: {k}")
        mon.state("refuse", method, k)


def FINAL(mon, streams, tier):
    for key in ["boot-twostep", "boot-joint"]:
        v = np.array(streams.get(key, []))
        if len(v) >= 4:
            z, q = v[:, 0], np.log(v[:, 1])
            mon.check("bootstrap-moments", abs(z.mean()) < 5 / np.sqrt(len(z)) and abs(q.mean()) < 0.15 + 1.2 / np.sqrt(len(q)),
                      f"{key}: draws against the exact resampling distribution over {len(z)} panels: mean z {z.mean():.2f}, mean log variance ratio {q.mean():.3f}")


KINDS = {"twostep": (f_twostep, 60, 500), "flatdid": (f_flatdid, 20, 150), "nuclear": (f_nuclear, 30, 250), "joint": (f_joint, 40, 300), "loocv": (f_loocv, 12, 60),
         "grid": (f_grid, 16, 80), "infer": (f_infer, 30, 200), "draws": (f_draws, 24, 60), "equiv": (f_equiv, 20, 150), "refuse": (f_refuse, 8, 40)}
