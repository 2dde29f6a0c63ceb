"""C06: two-way fixed effects against the dummy-variable regression."""
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of, unit_labels
from diff_diff import TwoWayFixedEffects, DifferenceInDifferences

RULE = ("balanced and unbalanced panels with treatment coded D_i (two-level or post-indicator time) or D_it (staggered), "
        "unit/time label types, covariates incl. time-invariant ones, cluster overrides, alphas, row orders; non-trivial = "
        "distinct (coding, balance, labels, covariates, cluster, rows-per-cell) state")
NOTE = "ATT, residuals, clustered SE and inference compared with an SVD dummy-variable projection."
SCALE = 4                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"att": 200, "se": 150, "inference": 400, "two-by-two": 30}


def data(rng):
    form = pick(rng, "two", "two", "postcol", "Dit", "Dit_stag")
    n = int(rng.integers(8, 45))
    T = 2 if form == "two" else int(rng.integers(3, 9))
    u = np.repeat(np.arange(n), T)
    t = np.tile(np.arange(T), n)
    nt = int(rng.integers(2, n - 2))
    ever = (u < nt).astype(int)
    s = int(rng.integers(1, T))
    start = np.full(n, T + 5)
    start[:nt] = s if form != "Dit_stag" else rng.integers(1, T, nt)
    D = (t >= start[u]).astype(int)
    df = pd.DataFrame({"ui": u, "ti": t, "ever": ever, "post": (t >= s).astype(int), "D": D})
    lab = unit_labels(rng, n)
    df["unit"] = [lab[i] for i in u]
    tl = pick(rng, "int", "year", "str", "neg", "date")
    tlab = {"int": list(range(T)), "year": [1990 + 3 * i for i in range(T)], "str": [f"t{i}" for i in range(T)],
            "neg": [i - 4 for i in range(T)], "date": list(pd.date_range("2019-12-01", periods=T))}[tl]
    df["time"] = [tlab[i] for i in t]
    df["x1"] = rng.normal(0, 1, len(df)) + 0.5 * D
    df["x2"] = rng.normal(0, 1, len(df)) * 50 + 3 * t
    df["xc"] = rng.normal(0, 1, n)[u]                       # absorbed by unit effects
    df["reg"] = (u % max(3, n // 4))
    lev = float(pick(rng, 0, 20, -5e3, 1e5))
    df["y"] = lev + rng.normal(0, 2, n)[u] + rng.normal(0, 1, T)[t] + 1.5 * D + 0.7 * df.x1 + 0.01 * df.x2 + rng.normal(0, 1, len(df)) * (1 + 0.5 * ever)
    if maybe(rng, 0.25):                                    # a covariate that hardly varies within units
        df["x1"] = df["x1"] + float(pick(rng, 1e3, 1e5)) * rng.normal(0, 1, n)[u]
    drop = float(pick(rng, 0, 0, 0.12, 0.3))
    bal = drop == 0
    if drop:
        df = df[rng.random(len(df)) >= drop]
    if maybe(rng, 0.2):                                     # duplicated rows per cell
        df = pd.concat([df, df.sample(max(1, len(df) // 5), random_state=int(rng.integers(1 << 30)))])
        df["y"] = df["y"] + rng.normal(0, 0.3, len(df))
        bal = False
    df = refs.relayout(rng, df) if maybe(rng) else df.reset_index(drop=True)
    if form == "two":
        a = dict(treatment="ever", time="time")
        reg, tcol = df.ever * (df.ti == 1), "ti"
    elif form == "postcol":
        a = dict(treatment="ever", time="post")
        reg, tcol = df.ever * df.post, "post"
    else:
        a = dict(treatment="D", time="time")
        reg, tcol = df.D, "ti"
    return df, form, tl, bal, a, reg.to_numpy(float), tcol


def k_fit(mon, rng, tier):
    df, form, tl, bal, a, reg, tcol = data(rng)
    covs = [c for c in ("x1", "x2") if maybe(rng, 0.35)]
    cl = pick(rng, None, None, "unit", "reg")
    alpha = alpha_of(rng)
    b, e, Xr, rk = refs.lsdv(df, df.y, [reg] + [df[c] for c in covs], ["ui", tcol])
    n, G = len(df), df["ui" if cl != "reg" else "reg"].nunique()
    if np.linalg.norm(Xr[:, 0]) < 0.2 or refs.rank_of(Xr) < Xr.shape[1] or n - rk - Xr.shape[1] < 3 or G < 3 or df[tcol].nunique() < 2:
        return
    if form in ("two", "postcol") and df.groupby(["ever", tcol]).size().shape[0] < 4:
        return
    if form == "two" and df.groupby("ui").ti.nunique().max() < 2:
        return
    if form.startswith("Dit") and df.groupby("ui").D.nunique().max() < 2:
        return
    covs_arg = list(covs)
    if maybe(rng, 0.15):
        covs_arg.append("xc")
    before = df.copy(deep=True)
    msg = f"{form} {tl} balanced={bal} covs={covs_arg} cluster={cl} level={df.y.mean():.3g}"
    mon.describe(spec=msg, n=n)
    r = TwoWayFixedEffects(cluster=cl, alpha=alpha).fit(df, "y", unit="unit", covariates=covs_arg or None, **a)
    pd.testing.assert_frame_equal(df, before)
    sc = max(1.0, df.y.std())
    mon.close("att", [r.att, r.coefficients["ATT"]], [b[0]] * 2, rtol=1e-6, atol=1e-7 * sc, msg=f"{msg}: ATT")
    mon.close("residuals", r.residuals, e, atol=1e-6 * sc, msg=f"{msg}: residuals")
    V = refs.vcov(Xr, e, "cluster", df["reg" if cl == "reg" else "ui"].to_numpy())
    k, ratio = Xr.shape[1], r.se ** 2 / V[0, 0]
    lo, hi = (n - k) / (n - 1), (n - k) / max(n - k - rk - 3, 1)
    tiny = 1e-7 * np.abs(e).max(initial=0.0) / np.linalg.norm(Xr[:, 0])      # scores that cancel within every cluster: no variance
    mon.check("se", (r.se <= tiny) if V[0, 0] <= tiny ** 2 else lo * (1 - 1e-5) <= ratio <= hi * (1 + 1e-5), f"{msg}: clustered se^2 ratio {ratio} not in [{lo}, {hi}]")
    nu, nT = df.ui.nunique(), df[tcol].nunique()
    dof = n - (nu + nT - 2) - 2 - len(covs)
    refs.inference(mon, "inference", r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, dof, msg)
    tr = df[df[a["treatment"]] == 1].ui.nunique()
    mon.check("counts", (r.n_obs, r.n_treated, r.n_control, r.alpha) == (n, tr, nu - tr, alpha), f"{msg}: counts {r.n_obs, r.n_treated, r.n_control}")
    if form == "two" and bal and not covs_arg:
        m = df.groupby(["ever", "ti"]).y.mean()
        mon.close("two-by-two", r.att, m[1, 1] - m[1, 0] - m[0, 1] + m[0, 0], rtol=1e-8, atol=1e-8 * sc, msg=f"{msg}: 2x2")
        dd = df.assign(post=(df.ti == 1).astype(int))
        mon.close("two-by-two", r.att, DifferenceInDifferences().fit(dd, "y", "ever", "post").att, atol=1e-8 * sc, msg="vs DiD")
    mon.state(form, tl, bal, len(covs), "xc" in covs_arg, cl, df.groupby(["ui", "ti"]).size().max() > 1)


def k_relabel(mon, rng, tier):
    """Unit/time relabelling and row order leave everything alone."""
    df, form, tl, bal, a, reg, tcol = data(rng)
    if form == "postcol":
        return
    try:
        r = TwoWayFixedEffects().fit(df, "y", unit="unit", **a)
    except ValueError:
        return
    if df.ti.nunique() < 2 or df.groupby("ui").size().max() < 2:
        return
    if np.linalg.norm(refs.lsdv(df, df.y, [reg], ["ui", tcol])[2]) < 0.2:      # the effects absorb the treatment
        return
    d2 = refs.relayout(rng, df)
    d2["unit"] = d2.ui.map({v: f"z{(7 * v + 3) % 101}_{v}" for v in d2.ui.unique()})
    d2["time"] = d2.ti * 10 + 5
    r2 = TwoWayFixedEffects().fit(d2, "y", unit="unit", **a)
    sc = max(1.0, df.y.std())
    mon.close("relabel", [r2.att, r2.se], [r.att, r.se], rtol=1e-6, atol=1e-7 * sc, msg=f"{form} {tl}")
    mon.close("relabel", r2.p_value, r.p_value, rtol=1e-5, atol=1e-6, msg=f"{form} {tl}")
    mon.state("relabel", form, tl, bal)


def k_wild(mon, rng, tier):
    df, form, tl, bal, a, reg, tcol = data(rng)
    b, e, Xr, rk = refs.lsdv(df, df.y, [reg], ["ui", tcol])
    if np.linalg.norm(Xr[:, 0]) < 0.2 or df.ui.nunique() < 5:
        return
    if form.startswith("Dit") and df.groupby("ui").D.nunique().max() < 2:
        return
    est = TwoWayFixedEffects(inference="wild_bootstrap", n_bootstrap=49, seed=int(rng.integers(1000)))
    r = est.fit(df, "y", unit="unit", **a)
    mon.close("att", r.att, b[0], rtol=1e-6, atol=1e-7 * max(1, df.y.std()), msg="wild bootstrap ATT")
    mon.check("wild-fields", r.inference_method == "wild_bootstrap" and r.n_bootstrap == 49 and r.n_clusters == df.ui.nunique(), "fields")
    est.set_params(inference="analytical")
    r2 = est.fit(df, "y", unit="unit", **a)
    r3 = TwoWayFixedEffects().fit(df, "y", unit="unit", **a)
    mon.close("refit", [r2.se, r2.p_value, *r2.conf_int], [r3.se, r3.p_value, *r3.conf_int], rtol=1e-10, msg="refit")
    mon.check("refit", r2.inference_method == "analytical" and r2.n_bootstrap is None and r2.n_clusters == r3.n_clusters, "stale bootstrap fields")
    mon.state("wild", form)


def k_errors(mon, rng, tier):
    df, form, tl, bal, a, reg, tcol = data(rng)
    df = df.reset_index(drop=True)
    V = (ValueError, KeyError, TypeError)
    i = int(rng.integers(len(df)))
    f = lambda d, **k: TwoWayFixedEffects().fit(d, "y", unit=k.pop("unit", "unit"), **{**a, **k})
    mon.raises("refused", V, lambda: f(df, unit="nope"), "missing unit")
    bad = df.copy(); bad.loc[i, "y"] = np.nan
    mon.raises("refused", V, lambda: f(bad), "NaN outcome")
    bad = df.copy(); bad["x1"] = bad["x1"].astype(float); bad.loc[i, "x1"] = np.nan
    mon.raises("refused", V, lambda: f(bad, covariates=["x1"]), "NaN covariate")
    bad = df.copy(); bad["unit"] = bad["unit"].astype(object); bad.loc[i, "unit"] = None
    mon.raises("refused", V, lambda: f(bad), "missing unit label")
    mon.state("errors", form)


KINDS = {"fit": (k_fit, 400, 9000), "relabel": (k_relabel, 80, 1500), "wild": (k_wild, 30, 400), "errors": (k_errors, 20, 200)}
