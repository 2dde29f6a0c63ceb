"""C04: basic DiD against the saturated regression with explicit dummies."""
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of, cross_section
from diff_diff import DifferenceInDifferences

RULE = ("random 2x2 data with arbitrary cell sizes, covariates, categorical effects (dummied, absorbed, mixed), "
        "clusters, dtypes and indexes, formula spellings, and sequences of refits of one object under changing "
        "settings; non-trivial = distinct (specification, covariance, dtype, imbalance) state")
NOTE = "Coefficients, fit statistics and covariances compared with an explicit-dummy QR regression written for the purpose."
SCALE = 4                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"att": 150, "four-means": 30, "se": 120, "refit": 80, "formula": 60, "absorb": 40, "absorb-se": 40, "redundant": 200}
KW = dict(outcome="y", treatment="treated", time="post")


def make(rng, **kw):
    kw.setdefault("covs", int(rng.integers(0, 4)))
    kw.setdefault("n_fe", int(rng.integers(0, 3)))
    df = cross_section(rng, level=float(pick(rng, 0, 10, -300, 5000)), **kw)
    style = pick(rng, "int", "bool", "float", "strfe", "plain")
    if style == "bool":
        df["treated"] = df["treated"].astype(bool)
        df["post"] = df["post"].astype(bool)
    elif style == "float":
        df["treated"] = df["treated"].astype(float)
    for c in [c for c in df if c.startswith("f")]:
        s = pick(rng, "int", "str", "cat")
        if s == "str":
            df[c] = df[c].map(lambda v: f"lev{v}")
        elif s == "cat":
            df[c] = df[c].map(lambda v: f"lev{v}").astype("category")
    if maybe(rng):
        df = refs.relayout(rng, df)
    return df, style


def reference(df, covs, fes):
    d = df["treated"].to_numpy(float)
    p = df["post"].to_numpy(float)
    cols = [np.ones(len(df)), d, p, d * p] + [df[c].to_numpy(float) for c in covs]
    for f in fes:
        D = refs.dummies(df[f].astype(str))
        cols += list(D.T)
    X = np.column_stack(cols)
    return X, df["y"].to_numpy(float)


def spec(rng, df):
    covs = [c for c in df if c[0] == "x" and maybe(rng, 0.7)]
    fe = [c for c in df if c in ("f1", "f2")]
    dum = [c for c in fe if maybe(rng, 0.4)]
    ab = [c for c in fe if c not in dum and maybe(rng, 0.5)]
    cl = "cl" if maybe(rng, 0.4) else None
    return covs, dum, ab, cl, maybe(rng, 0.6)


def observe(mon, r, df, covs, dum, ab, cl, robust, alpha, msg):
    X, y = reference(df, covs, dum + ab)
    k = X.shape[1]
    n = len(y)
    if refs.rank_of(X) < k or n < k + 3:
        return None
    b, e = refs.ols(X, y)
    ys = y.std() + 1e-12
    mon.close("att", r.att, b[3], rtol=1e-7, atol=1e-8 * ys, msg=f"{msg}: ATT")
    mon.close("residuals", r.residuals, e, rtol=1e-7, atol=1e-7 * ys, msg=f"{msg}: residuals")
    mon.check("counts", r.n_obs == n and r.n_treated == int(df["treated"].astype(int).sum())
              and r.n_control == n - int(df["treated"].astype(int).sum()) and r.alpha == alpha,
              lambda: f"{msg}: counts {r.n_obs, r.n_treated, r.n_control} alpha {r.alpha}")
    kind = "cluster" if cl else ("hc1" if robust else "homo")
    V = refs.vcov(X, e, kind, df[cl].to_numpy() if cl else None)
    if not ab:
        mon.close("fitted", r.fitted_values, y - e, rtol=1e-7, atol=1e-7 * ys, msg=f"{msg}: fitted")
        mon.close("r2", r.r_squared, 1 - e @ e / ((y - y.mean()) ** 2).sum(), rtol=1e-7, atol=1e-8, msg=f"{msg}: R2")
        mon.close("se", r.se, np.sqrt(V[3, 3]), rtol=1e-6, msg=f"{msg}: {kind} se")
        names = ["const", "treated", "post", "treated:post"] + covs
        mon.check("coefs", all(c in r.coefficients for c in names), f"{msg}: coefficient names {list(r.coefficients)[:8]}")
        mon.close("coefs", [r.coefficients[c] for c in names], b[:len(names)], rtol=1e-6, atol=1e-7 * ys, msg=f"{msg}: coefs")
        mon.check("coefs", len(r.coefficients) == k, f"{msg}: {len(r.coefficients)} coefficients, design has {k}")
        df_ = n - k
    else:
        if cl:
            # small-sample factor for absorbed effects is a convention (nested or not): bracket it
            v_full = V[3, 3]
            v_lo = v_full * (n - k) / (n - 1)
            mon.check("se", np.sqrt(v_lo) * (1 - 1e-6) <= r.se <= np.sqrt(v_full) * np.sqrt((n - k) / max(n - k - 3, 1)) * (1 + 1e-6),
                      lambda: f"{msg}: absorbed {kind} se {r.se} outside [{np.sqrt(v_lo)}, {np.sqrt(v_full)}]")
        else:
            mon.close("absorb-se", r.se, np.sqrt(V[3, 3]), rtol=1e-6, msg=f"{msg}: absorbed {kind} se against explicit dummies")
            refs.inference(mon, "inference", r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, n - k, f"{msg}: absorbed")
        mon.saw("absorb")
        for c in covs:
            mon.close("coefs", r.coefficients[c], b[4 + covs.index(c)], rtol=1e-6, atol=1e-7 * ys, msg=f"{msg}: {c}")
        df_ = None
    if df_ is not None:
        refs.inference(mon, "inference", r.att, r.se, r.t_stat, r.p_value, r.conf_int, alpha, df_, msg)
    if not covs and not dum and not ab:
        m = df.assign(treated=df["treated"].astype(int), post=df["post"].astype(int)).groupby(["treated", "post"])["y"].mean()
        mon.close("four-means", r.att, (m[1, 1] - m[1, 0]) - (m[0, 1] - m[0, 0]), rtol=1e-8, atol=1e-9 * ys,
                  msg=f"{msg}: four cell means")
    return kind


def k_fit(mon, rng, tier):
    df, style = make(rng, covs=int(pick(rng, 0, 0, 1, 3)))
    covs, dum, ab, cl, robust = spec(rng, df)
    alpha = alpha_of(rng)
    mon.describe(n=len(df), covs=covs, fixed_effects=dum, absorb=ab, cluster=cl, robust=robust, alpha=alpha)
    est = DifferenceInDifferences(robust=robust, cluster=cl, alpha=alpha)
    before = df.copy(deep=True)
    r = est.fit(df, covariates=covs or None, fixed_effects=dum or None, absorb=ab or None, **KW)
    pd.testing.assert_frame_equal(df, before)
    kind = observe(mon, r, df, covs, dum, ab, cl, robust, alpha, f"fit {covs} {dum} {ab} {cl}")
    if kind:
        sizes = df.groupby([df["treated"].astype(int), df["post"].astype(int)]).size()
        mon.state(len(covs), len(dum), len(ab), kind, style, int(np.log2(sizes.max() / sizes.min())))


def k_panel_absorb(mon, rng, tier):
    """Absorbing units / units and periods on (un)balanced panels equals the dummy fit."""
    n, T = int(rng.integers(6, 25)), int(rng.integers(2, 7))
    u = np.repeat(np.arange(n), T)
    t = np.tile(np.arange(T), n)
    s = int(rng.integers(1, T))
    df = pd.DataFrame({"unit": [f"u{v}" for v in u] if maybe(rng) else u, "period": t,
                       "treated": (u < n // 2).astype(int), "post": (t >= s).astype(int)})
    df["x"] = rng.normal(0, 1, len(df)) + 0.3 * t
    df["y"] = rng.normal(0, 3, n)[u] + rng.normal(0, 1, T)[t] + 2 * df.treated * df.post + 0.5 * df.x + rng.normal(0, 1, len(df)) + 40
    if maybe(rng, 0.25):                                    # a covariate that hardly varies within units
        df["x"] = df["x"] + float(pick(rng, 1e3, 1e5)) * rng.normal(0, 1, n)[u]
    keep = rng.random(len(df)) > float(pick(rng, 0, 0, 0.15, 0.35))
    df = df[keep].reset_index(drop=True)
    g = df.groupby(["treated", "post"]).size()
    if len(g) < 4 or g.min() < 2:
        return
    df["f1"] = rng.integers(0, 3, len(df))
    df["g"] = pd.factorize(df.unit)[0] // int(rng.integers(2, 5))       # groups of units: nested in the unit effects
    ab = pick(rng, ["unit"], ["unit", "period"], ["unit", "f1"], ["period"], ["f1"], ["g"], ["unit", "g"], ["g", "unit", "period"])
    covs = ["x"] if maybe(rng) else []
    robust, cl = maybe(rng), pick(rng, None, "unit")
    r = DifferenceInDifferences(robust=robust, cluster=cl).fit(df, absorb=ab, covariates=covs or None, **KW)
    d, p = df.treated.to_numpy(float), df.post.to_numpy(float)
    b, e, Xr, rk = refs.lsdv(df, df.y, [d * p] + ([df.x] if covs else []) + ([] if any(df.groupby(c).treated.nunique().max() == 1 for c in ab) else [d])
                             + ([] if "period" in ab else [p]), ab)
    if refs.rank_of(Xr) < Xr.shape[1] or len(df) - rk - Xr.shape[1] < 4:
        return
    mon.close("absorb", r.att, b[0], rtol=1e-6, atol=1e-7, msg=f"absorb={ab} covs={covs} balanced={bool(keep.all())}")
    mon.close("residuals", r.residuals, e, atol=1e-6, msg=f"absorb={ab}: residuals")
    V = refs.vcov(Xr, e, "cluster" if cl else ("hc1" if robust else "homo"), df.unit.to_numpy() if cl else None)
    ratio = r.se ** 2 / V[0, 0]
    k, n_ = Xr.shape[1], len(df)
    if not cl:
        mon.close("absorb-se", r.se, np.sqrt(V[0, 0] * (n_ - k) / (n_ - k - rk)), rtol=1e-6, msg=f"absorb={ab} robust={robust}: se against explicit dummies")
        refs.inference(mon, "inference", r.att, r.se, r.t_stat, r.p_value, r.conf_int, 0.05, n_ - k - rk, f"absorb={ab}")
    tiny = 1e-7 * np.abs(e).max(initial=0.0) / np.linalg.norm(Xr[:, 0])
    mon.check("se", (r.se <= tiny) if V[0, 0] <= tiny ** 2 else (n_ - k) / (n_ - 1) * (1 - 1e-5) <= ratio <= (n_ - k) / max(n_ - k - rk - 3, 1) * (1 + 1e-5),
              f"absorb={ab} se ratio {ratio}")
    mon.state("panel", tuple(ab), len(covs), bool(keep.all()), robust, cl)


def k_routes(mon, rng, tier):
    """Formula spellings and dummies/absorb routes agree."""
    df, style = make(rng, covs=int(pick(rng, 0, 1, 2, 5)), n_fe=1)
    covs = [c for c in df if c[0] == "x"]
    est = lambda: DifferenceInDifferences(robust=robust, cluster=cl)
    robust, cl = maybe(rng), pick(rng, None, "cl")
    base = est().fit(df, covariates=covs or None, **KW)
    tail = "".join(f" + {c}" for c in covs)
    for f in (f"y ~ treated * post{tail}", f"y ~ treated + post + treated:post{tail}",
              f"y~treated*post{tail.replace(' ', '')}", f"y ~ post + treated{tail} + treated:post"):
        r = est().fit(df, formula=f)
        mon.close("formula", [r.att, r.se, r.p_value, r.n_obs, r.r_squared], [base.att, base.se, base.p_value, base.n_obs, base.r_squared],
                  rtol=1e-8, atol=1e-10, msg=f"formula {f!r}")
        mon.check("formula", set(r.coefficients) == set(base.coefficients), f"{f!r}: {set(r.coefficients) ^ set(base.coefficients)}")
    if covs:
        r = est().fit(df, formula="y ~ treated * post", covariates=covs)
        mon.close("formula", [r.att, r.se], [base.att, base.se], rtol=1e-8, msg="formula plus explicit covariates")
    r1 = est().fit(df, covariates=covs or None, fixed_effects=["f1"], **KW)
    if covs:
        nm = f"f1_{pick(rng, *sorted(df.f1.astype(str).unique()))}"    # a covariate named like one of the dummies is still a separate regressor
        q = est().fit(df.rename(columns={covs[-1]: nm}), covariates=covs[:-1] + [nm], fixed_effects=["f1"], **KW)
        mon.close("routes", [q.att, q.se], [r1.att, r1.se], rtol=1e-8, msg=f"covariate renamed to {nm}")
    r2 = est().fit(df, covariates=covs or None, absorb=["f1"], **KW)
    D = df.copy()
    dn = []
    for j, c in enumerate(refs.dummies(df["f1"].astype(str)).T):
        D[f"dd{j}"] = c
        dn.append(f"dd{j}")
    r3 = est().fit(D, covariates=covs + dn, **KW)
    X, _ = reference(df, covs, ["f1"])
    if refs.rank_of(X) == X.shape[1] and len(df) > X.shape[1] + 3:
        mon.close("routes", [r2.att, r3.att], [r1.att, r1.att], rtol=1e-7, atol=1e-8, msg="dummies vs absorb vs explicit columns")
        mon.close("routes", r3.se, r1.se, rtol=1e-7, msg="dummies vs explicit columns se")
    mon.state("routes", len(covs), robust, cl, style)


def k_redundant(mon, rng, tier):
    """A covariate that repeats information already in the model changes neither the effect nor its inference."""
    df, style = make(rng, covs=int(pick(rng, 1, 2, 3)), n_fe=int(rng.integers(0, 2)))
    covs = [c for c in df if c[0] == "x"]
    dum = ["f1"] if "f1" in df and maybe(rng) else []
    robust, cl, alpha = maybe(rng), pick(rng, None, None, "cl"), alpha_of(rng)
    how = pick(rng, "copy", "combo", "const", "group", "zero")
    d = df["treated"].astype(float)
    df["r"] = {"copy": df["x1"], "combo": sum((k + 1) * df[c] for k, c in enumerate(covs)) + 2 * d, "const": 3.0, "group": 1 - d, "zero": 0.0}[how]
    df["r2"] = df["r"] * 2 - 1
    extra = ["r"] if maybe(rng) else ["r", "r2"]
    order = covs + extra if maybe(rng) else extra + covs
    est = lambda: DifferenceInDifferences(robust=robust, cluster=cl, alpha=alpha, rank_deficient_action=pick(rng, "warn", "silent"))
    a = est().fit(df, covariates=covs, fixed_effects=dum or None, **KW)
    X, y = reference(df, covs, dum)
    if refs.rank_of(X) < X.shape[1] or len(y) < X.shape[1] + 4:
        return
    ys = float(np.std(y))
    b = est().fit(df, covariates=order, fixed_effects=dum or None, **KW)
    msg = f"{how} {order} {dum} robust={robust} cl={cl}"
    mon.close("redundant", b.att, a.att, rtol=1e-6, atol=1e-7 * ys, msg=f"{msg}: ATT")
    mon.close("redundant", [b.se, *b.conf_int], [a.se, *a.conf_int], rtol=1e-5, atol=1e-7 * ys, msg=f"{msg}: SE and interval")
    mon.close("redundant", [b.p_value, b.r_squared], [a.p_value, a.r_squared], rtol=1e-4, atol=1e-8, msg=f"{msg}: p, R2")
    mon.close("redundant", b.residuals, a.residuals, atol=1e-6 * ys, msg=f"{msg}: residuals")
    n_nan = sum(np.isnan(v) for v in b.coefficients.values())
    mon.check("redundant", n_nan == len(extra), f"{msg}: {n_nan} coefficients reported as not identified, {len(extra)} columns are redundant")
    mon.raises("redundant", (ValueError,), lambda: DifferenceInDifferences(rank_deficient_action="error").fit(df, covariates=order, **KW), f"{msg}: error action")
    mon.state("redundant", how, len(extra), bool(dum), robust, cl)


def flat(r):
    return [r.att, r.se, r.t_stat, r.p_value, *r.conf_int, r.n_obs, r.n_treated, r.r_squared]


def k_refit(mon, rng, tier):
    """One object through a random history of fits == fresh object for each."""
    frames = [make(rng, n=int(rng.integers(40, 90)))[0] for _ in range(3)]
    est = DifferenceInDifferences()
    kept = []
    seq = []
    for step in range(int(rng.integers(3, 7))):
        df = frames[int(rng.integers(3))]
        covs, dum, ab, cl, robust = spec(rng, df)
        inf = "wild_bootstrap" if cl and maybe(rng, 0.4) else "analytical"
        p = dict(robust=robust, cluster=cl, alpha=alpha_of(rng), inference=inf, n_bootstrap=49, seed=int(rng.integers(99)))
        est.set_params(**p)
        a = dict(covariates=covs or None, fixed_effects=dum or None, absorb=ab or None, **KW)
        got = est.fit(df, **a)
        want = DifferenceInDifferences(**p).fit(df, **a)
        mon.close("refit", flat(got), flat(want), rtol=1e-10, atol=1e-12, msg=f"history {seq}")
        mon.check("refit", got.inference_method == want.inference_method == inf and got.n_bootstrap == want.n_bootstrap
                  and got.n_clusters == want.n_clusters,
                  f"inference fields after history {seq}: {got.inference_method, got.n_bootstrap, got.n_clusters}")
        mon.check("refit", list(got.coefficients) == list(want.coefficients), "coefficient names after refit")
        mon.check("refit", est.results_ is got or np.allclose(flat(est.results_), flat(got), equal_nan=True), "results_ is latest")
        seq.append((inf, bool(ab), cl))
        kept.append((got, flat(got)))
    for g, f in kept:
        mon.close("refit", flat(g), f, rtol=0, atol=0, msg="earlier result changed by later fit")
    mon.state("refit", tuple(s[0] for s in seq))


KINDS = {"fit": (k_fit, 260, 6000), "panel_absorb": (k_panel_absorb, 120, 3000), "routes": (k_routes, 60, 1500), "refit": (k_refit, 40, 800),
         "redundant": (k_redundant, 60, 1500)}
