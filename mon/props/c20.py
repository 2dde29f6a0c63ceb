"""C20: generated data carries exactly the advertised effects and structure."""
import warnings
import numpy as np
import pandas as pd
from scipy import stats

from mon.gen import pick, maybe
from diff_diff import CallawaySantAnna, DifferenceInDifferences, MultiPeriodDiD, TripleDifference, TwoWayFixedEffects
from diff_diff import datasets, prep_dgp as G

RULE = "random parameters of every generator (units 2-400, periods 2-14, effects of any size and sign, zero and non-zero noise, any seed) and the built-in tables; non-trivial = distinct (generator, option, size class) state"
NOTE = ("The documented model is rebuilt by hand from the returned columns: remainder after removing effect and trend must be the unit effects (exact without noise, of the requested variance with it); "
        "estimators run on noise-free data must return the requested effect to rounding; generator differences across seeds and effects checked under common seeds.")
ASSUMPTIONS = "Baseline and interaction constants are those of the docstring models; shares are met to within one unit."
SCALE = 3                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"structure": 200, "true-effect": 150, "model": 150, "noise-law": 60, "recover": 60, "seed": 150, "refuses": 20, "tables": 4}


def size(n):
    return "s" if n < 10 else ("m" if n < 80 else "l")


def eff(rng):
    return float(pick(rng, 0, 1, -2.5, 5, round(float(rng.normal(0, 30)), 3)))


def determinism(mon, fn, kw, cols):
    """Same seed -> identical frame; other seed -> other draws; global random state untouched."""
    st = np.random.get_state()[1].copy()
    a, b, c = fn(**kw), fn(**kw), fn(**{**kw, "seed": kw["seed"] + 1})
    mon.check("seed", np.array_equal(st, np.random.get_state()[1]), "global random state changed")
    mon.check("seed", a.equals(b), "same seed, different data")
    if kw.get("noise_sd", 1) > 0:
        mon.check("seed", not np.array_equal(a.outcome, c.outcome), "another seed, same outcomes")
    mon.check("structure", list(a.columns) == cols, f"columns {list(a.columns)}")
    return a


def common(mon, fn, kw, a):
    """The effect enters additively and nowhere else (same seed, effect switched off)."""
    z = fn(**{**kw, "treatment_effect": 0.0})
    mon.close("true-effect", a.outcome - z.outcome, a.true_effect - z.true_effect, rtol=1e-9, atol=1e-9 * (1 + abs(a.true_effect).max()), msg="outcome moves by something other than the true effect")
    mon.check("true-effect", np.all(z.true_effect == 0), "effect reported when none requested")
    other = [c for c in a.columns if c not in ("outcome", "true_effect")]
    mon.check("structure", a[other].equals(z[other]), "design columns depend on the effect size")


def panel_shape(mon, a, n, T, unit="unit"):
    mon.check("structure", len(a) == n * T and set(a[unit]) == set(range(n)) and set(a.period) == set(range(T)) and not a.duplicated([unit, "period"]).any(), f"{len(a)} rows for {n} units x {T} periods")


def share(mon, got, n, f):
    mon.check("structure", abs(got - n * f) < 1 + 1e-9, f"{got} of {n} units treated, requested share {f}")


def laws(mon, r, n, T, fe, noise, shift=None):
    """r[n,T] = unit effect + noise: variances, zero means and independence as requested."""
    if shift is not None:
        r = r - shift[:, None]
    w = r - r.mean(axis=1, keepdims=True)
    sc = 1e-8 * (1 + abs(r).max())
    if noise == 0:
        mon.check("model", abs(w).max() <= sc, f"noise-free outcome leaves an unexplained {abs(w).max():.3g}")
    elif T > 1:
        df = n * (T - 1)
        q = (w ** 2).sum() / noise ** 2
        p = 2 * min(stats.chi2.cdf(q, df), stats.chi2.sf(q, df))
        mon.check("noise-law", p > 1e-9, f"noise variance {q/df:.3f} times the requested one (df {df})")
        mon.stream("noise", float(stats.norm.ppf(np.clip(stats.chi2.cdf(q, df), 1e-12, 1 - 1e-12))))
        if n * T > 60 and T > 2:
            # the noise law does not change along the panel, is not serially related and is the same for every half of the units
            e = w / (noise * np.sqrt(1 - 1 / T))
            h = T // 2
            mon.stream("along-periods", float(((e[:, -h:] ** 2).sum() - (e[:, :h] ** 2).sum()) / np.sqrt(4 * n * h)))
            mon.stream("along-units", float(((e[n - n // 2:] ** 2).sum() - (e[:n // 2] ** 2).sum()) / np.sqrt(4 * (n // 2) * (T - 1))))
            mon.stream("serial", float(((w[:, 1:] * w[:, :-1]).sum() / noise ** 2 + n * (T - 1) / T) / np.sqrt(n * (T - 1))))
            mon.stream("skew", float((e ** 3).sum() / np.sqrt(15 * n * T)))
            mon.stream("tails", float(((e ** 4).mean() - 3) * np.sqrt(n * (T - 1) / 96)))
    s2 = fe ** 2 + noise ** 2 / T
    if s2 > 0:
        q = (r.mean(axis=1) ** 2).sum() / s2
        p = 2 * min(stats.chi2.cdf(q, n), stats.chi2.sf(q, n))
        mon.check("noise-law", p > 1e-9, f"unit-effect variance {q/n:.3f} times the requested one (n {n})")
        mon.stream("unit", float(stats.norm.ppf(np.clip(stats.chi2.cdf(q, n), 1e-12, 1 - 1e-12))))
        mon.stream("mean", float(r.mean() / np.sqrt(s2 / n)))
        u = r.mean(axis=1) / np.sqrt(s2)
        if n > 10:
            mon.stream("between-units", float((u[1:] * u[:-1]).sum() / np.sqrt(n - 1)))
            mon.stream("tails-unit", float(((u ** 4).mean() - 3) * np.sqrt(n / 96)))
    else:
        mon.check("model", abs(r).max() <= sc, f"outcome differs from the documented model by {abs(r).max():.3g}")


def mat(a, col, n, T, unit="unit"):
    return a.pivot(index=unit, columns="period", values=col).to_numpy(float)


def sds(rng):
    return float(pick(rng, 0, 0, 0.5, 2.0, 7.0)), float(pick(rng, 0, 0, 0.3, 1.0, 5.0))


def k_did(mon, rng, tier):
    n, T = int(rng.integers(2, 200)), int(rng.integers(2, 9))
    fe, noise = sds(rng)
    kw = dict(n_units=n, n_periods=T, treatment_effect=eff(rng), treatment_fraction=float(pick(rng, 0.5, 0.1, 0.9, 0.29, 1 / 3)), treatment_period=int(rng.integers(1, T)),
              unit_fe_sd=fe, time_trend=float(pick(rng, 0, 0.5, -3)), noise_sd=noise, seed=int(rng.integers(1e6)))
    a = determinism(mon, G.generate_did_data, kw, ["unit", "period", "treated", "post", "outcome", "true_effect"])
    panel_shape(mon, a, n, T)
    common(mon, G.generate_did_data, kw, a)
    mon.check("structure", (a.groupby("unit").treated.nunique() == 1).all() and set(a.treated) <= {0, 1}, "treatment not constant in unit")
    share(mon, a.groupby("unit").treated.max().sum(), n, kw["treatment_fraction"])
    mon.check("structure", (a.post == (a.period >= kw["treatment_period"]).astype(int)).all(), "post indicator")
    mon.check("true-effect", (a.true_effect == kw["treatment_effect"] * a.treated * a.post).all(), "true_effect on the wrong observations")
    laws(mon, mat(a, "outcome", n, T) - mat(a, "true_effect", n, T) - 10 - kw["time_trend"] * np.arange(T), n, T, fe, noise)
    nt = a.groupby("unit").treated.max().sum()
    if noise == 0 and 0 < nt < n and n > 3:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = DifferenceInDifferences().fit(a, outcome="outcome", treatment="treated", time="post")
        mon.close("recover", r.att, kw["treatment_effect"], rtol=1e-8, atol=1e-8, msg="DiD on noise-free data")
    mon.state("did", size(n), fe == 0, noise == 0, kw["treatment_fraction"], T)
    mon.describe(**kw)


def k_staggered(mon, rng, tier):
    n, T = int(rng.integers(3, 200)), int(rng.integers(4, 14))
    fe, noise = sds(rng)
    coh = None if maybe(rng, 0.3) else [int(x) for x in rng.choice(np.arange(1, T), int(rng.integers(1, min(4, T))), replace=False)]
    kw = dict(n_units=n, n_periods=T, cohort_periods=coh, never_treated_frac=float(pick(rng, 0, 0.3, 0.7, 1.0, 0.29)), treatment_effect=eff(rng), dynamic_effects=maybe(rng),
              effect_growth=float(pick(rng, 0, 0.1, -0.5, 2)), unit_fe_sd=fe, time_trend=float(pick(rng, 0, 0.1, -3)), noise_sd=noise, seed=int(rng.integers(1e6)))
    a = determinism(mon, G.generate_staggered_data, kw, ["unit", "period", "outcome", "first_treat", "treated", "treat", "true_effect"])
    panel_shape(mon, a, n, T)
    common(mon, G.generate_staggered_data, kw, a)
    ft = a.groupby("unit").first_treat.agg(["min", "max"])
    mon.check("structure", (ft["min"] == ft["max"]).all(), "first_treat varies within a unit")
    ft = ft["min"]
    allowed = set(coh) if coh else ({3, 5, 7} if T >= 8 else {T // 3, 2 * T // 3})
    if allowed:
        mon.check("structure", set(ft) <= allowed | {0}, f"cohorts {sorted(set(ft))} outside {allowed}")
    share(mon, (ft == 0).sum(), n, kw["never_treated_frac"])
    on = (a.first_treat > 0) & (a.period >= a.first_treat)
    mon.check("structure", (a.treated == on.astype(int)).all() and (a.treat == (a.first_treat > 0).astype(int)).all(), "treated/treat disagree with first_treat")
    k = a.period - a.first_treat
    want = np.where(on, kw["treatment_effect"] * ((1 + kw["effect_growth"] * k) if kw["dynamic_effects"] else 1.0), 0.0)
    mon.close("true-effect", a.true_effect, want, rtol=1e-12, atol=1e-12, msg="true_effect path")
    if len(allowed or ()) > 1:
        c = np.array([(ft == g).sum() for g in sorted(allowed)], float)
        if c.sum() >= 20:
            mon.stream("cohort", float(stats.norm.ppf(np.clip(stats.chi2.cdf(((c - c.mean()) ** 2 / c.mean()).sum(), len(c) - 1), 1e-9, 1 - 1e-9))))
            mon.check("noise-law", stats.chi2.sf(((c - c.mean()) ** 2 / c.mean()).sum(), len(c) - 1) > 1e-9, f"cohort sizes {c}")
    laws(mon, mat(a, "outcome", n, T) - mat(a, "true_effect", n, T) - 10 - kw["time_trend"] * np.arange(T), n, T, fe, noise)
    if noise == 0 and (ft == 0).sum() >= 2 and (ft > 0).any():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = CallawaySantAnna().fit(a, outcome="outcome", unit="unit", time="period", first_treat="first_treat")
        for (g, t), v in r.group_time_effects.items():
            w = 0.0 if t < g else kw["treatment_effect"] * ((1 + kw["effect_growth"] * (t - g)) if kw["dynamic_effects"] else 1.0)
            mon.close("recover", v["effect"], w, rtol=1e-8, atol=1e-7, msg=f"ATT({g},{t}) on noise-free data")
    mon.state("stag", size(n), T, coh is None, kw["never_treated_frac"], kw["dynamic_effects"], noise == 0)


def k_factor(mon, rng, tier):
    n, pre, post = int(rng.integers(2, 60)), int(rng.integers(1, 12)), int(rng.integers(1, 7))
    nt, K, T = int(rng.integers(1, n + 1)), int(rng.integers(0, 4)), pre + post
    fe, noise = sds(rng)
    kw = dict(n_units=n, n_pre=pre, n_post=post, n_treated=nt, n_factors=K, treatment_effect=eff(rng), factor_strength=float(pick(rng, 0, 1, 3)), treated_loading_shift=float(pick(rng, 0, 0.5, -2)),
              unit_fe_sd=fe, noise_sd=noise, seed=int(rng.integers(1e6)))
    a = determinism(mon, G.generate_factor_data, kw, ["unit", "period", "outcome", "treated", "treat", "true_effect"])
    panel_shape(mon, a, n, T)
    common(mon, G.generate_factor_data, kw, a)
    tr = a.groupby("unit").treat.agg(["min", "max"])
    mon.check("structure", (tr["min"] == tr["max"]).all() and tr["max"].sum() == nt, f"{tr['max'].sum()} treated units, requested {nt}")
    mon.check("structure", (a.treated == a.treat * (a.period >= pre)).all(), "treated indicator")
    mon.check("true-effect", (a.true_effect == kw["treatment_effect"] * a.treated).all(), "true_effect on the wrong observations")
    R = mat(a, "outcome", n, T) - mat(a, "true_effect", n, T)
    D = R - R.mean(1, keepdims=True) - R.mean(0) + R.mean()
    if noise == 0:
        s = np.linalg.svd(D, compute_uv=False)
        k = K if kw["factor_strength"] > 0 else 0
        mon.check("model", k >= len(s) or s[k] <= 1e-8 * (1 + abs(R).max()), f"interactive component has rank above {k}: {s[:k+2]}")
        if k == 0 and 0 < nt < n:
            r = TwoWayFixedEffects()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                f = r.fit(a, outcome="outcome", treatment="treated", time="period", unit="unit") if n > 3 and T > 2 else None
            if f is not None:
                mon.close("recover", f.att, kw["treatment_effect"], rtol=1e-7, atol=1e-7, msg="TWFE without factors or noise")
    s0 = G.generate_factor_data(**{**kw, "treated_loading_shift": 0.0})
    diff = R - (mat(s0, "outcome", n, T) - mat(s0, "true_effect", n, T))
    trm = tr["max"].to_numpy() == 1
    sc = 1e-8 * (1 + abs(R).max())
    mon.check("model", abs(diff[~trm]).max(initial=0) <= sc and abs(diff[trm] - diff[trm][0]).max() <= sc, "loading shift does not move the treated units alike and alone")
    if kw["factor_strength"] and kw["treated_loading_shift"] and K:
        mon.check("model", abs(diff[trm]).max() > sc, "loading shift without effect")
    base = G.generate_factor_data(**{**kw, "factor_strength": 0.0, "treated_loading_shift": 0.0})
    if K:
        one = G.generate_factor_data(**{**kw, "factor_strength": 1.0, "treated_loading_shift": 0.0})
        L = mat(one, "outcome", n, T) - mat(base, "outcome", n, T)   # loadings times factors, each standard normal
        mon.close("model", (R - (mat(base, "outcome", n, T) - mat(base, "true_effect", n, T)))[~trm], kw["factor_strength"] * L[~trm], rtol=1e-8, atol=1e-8 * (1 + abs(R).max()),
                  msg="interactive component not proportional to factor_strength")
        mon.stream("loadings", float(L.sum() / np.sqrt(K * n * T)))
        mon.stream("loadings-spread", float(((L ** 2).mean() / K - 1) / np.sqrt((2 / n + 2 / T + 4 / (n * T)) / K)))
    B = mat(base, "outcome", n, T) - mat(base, "true_effect", n, T)
    trend = np.linspace(0, 2, T) if T > 1 else np.zeros(1)
    laws(mon, B - 10 - trend, n, T, fe, noise, shift=trm * 1.0)
    mon.state("factor", size(n), K, kw["factor_strength"], noise == 0, nt == n)
    if maybe(rng, 0.3):
        mon.raises("refuses", (ValueError,), lambda: G.generate_factor_data(n_units=n, n_treated=pick(rng, 0, n + 1, -1)), "impossible number of treated units")


def k_ddd(mon, rng, tier):
    m = int(rng.integers(1, 60))
    noise = float(pick(rng, 0, 0, 1.0, 4.0))
    kw = dict(n_per_cell=m, treatment_effect=eff(rng), group_effect=float(pick(rng, 0, 2, -3)), partition_effect=float(pick(rng, 0, 1, 4)), time_effect=float(pick(rng, 0, 0.5, -2)), noise_sd=noise,
              add_covariates=maybe(rng), seed=int(rng.integers(1e6)))
    cols = ["outcome", "group", "partition", "time", "unit_id", "true_effect"] + (["age", "education"] if kw["add_covariates"] else [])
    a = determinism(mon, G.generate_ddd_data, kw, cols)
    common(mon, G.generate_ddd_data, kw, a)
    c = a.groupby(["group", "partition", "time"]).size()
    mon.check("structure", len(c) == 8 and (c == m).all() and a.unit_id.is_unique, f"cell sizes {c.tolist()}")
    mon.check("true-effect", (a.true_effect == kw["treatment_effect"] * a.group * a.partition * a.time).all(), "true_effect on the wrong observations")
    g, p, t = a.group, a.partition, a.time
    mu = 50 + kw["group_effect"] * g + kw["partition_effect"] * p + kw["time_effect"] * t + 1.5 * g * p + 1.0 * g * t + 0.5 * p * t + a.true_effect
    if kw["add_covariates"]:
        mu = mu + 0.1 * a.age + 0.5 * a.education
        mon.check("structure", set(a.education) <= {12, 14, 16, 18}, "education levels")
        mon.stream("age", float((a.age - 40).sum() / 10 / np.sqrt(len(a))))
        mon.check("noise-law", abs((a.age - 40).sum() / 10 / np.sqrt(len(a))) < 6, "mean age is not 40")
        mon.stream("age-spread", float(stats.norm.ppf(np.clip(stats.chi2.cdf(((a.age - 40) ** 2).sum() / 100, len(a)), 1e-12, 1 - 1e-12))))
        for lv, q in ((12, 0.3), (14, 0.3), (16, 0.25), (18, 0.15)):
            mon.stream(f"education-{lv}", float(((a.education == lv).sum() - q * len(a)) / np.sqrt(q * (1 - q) * len(a))))
        mon.stream("independent", float((((a.age - 40) / 10) * ((a.education - 14.5) / 2.0857)).sum() / np.sqrt(len(a))))
    e = (a.outcome - mu).to_numpy()
    if noise == 0:
        mon.check("model", abs(e).max() < 1e-9, f"outcome differs from the documented model by {abs(e).max():.3g}")
        if m > 1:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = TripleDifference(estimation_method="reg").fit(a, outcome="outcome", group="group", partition="partition", time="time", covariates=["age", "education"] if kw["add_covariates"] and m > 5 else None)
            if not kw["add_covariates"] or m > 5:
                mon.close("recover", r.att, kw["treatment_effect"], rtol=1e-7, atol=1e-7, msg="DDD on noise-free data")
    else:
        q = (e ** 2).sum() / noise ** 2
        mon.check("noise-law", min(stats.chi2.cdf(q, len(e)), stats.chi2.sf(q, len(e))) > 1e-9, f"noise variance {q/len(e):.3f} times requested")
        mon.stream("noise", float(stats.norm.ppf(np.clip(stats.chi2.cdf(q, len(e)), 1e-12, 1 - 1e-12))))
        mon.stream("mean", float(e.sum() / noise / np.sqrt(len(e))))
    mon.state("ddd", size(m), kw["add_covariates"], noise == 0)


def k_panel(mon, rng, tier):
    n, T = int(rng.integers(2, 200)), int(rng.integers(2, 12))
    fe, noise = sds(rng)
    kw = dict(n_units=n, n_periods=T, treatment_period=int(rng.integers(1, T)), treatment_fraction=float(pick(rng, 0.5, 0.2, 0.75, 0.29)), treatment_effect=eff(rng), parallel_trends=maybe(rng),
              trend_violation=float(pick(rng, 1, -0.5, 3)), unit_fe_sd=fe, noise_sd=noise, seed=int(rng.integers(1e6)))
    a = determinism(mon, G.generate_panel_data, kw, ["unit", "period", "treated", "post", "outcome", "true_effect"])
    panel_shape(mon, a, n, T)
    common(mon, G.generate_panel_data, kw, a)
    tr = a.groupby("unit").treated.agg(["min", "max"])
    mon.check("structure", (tr["min"] == tr["max"]).all(), "treatment varies in unit")
    share(mon, tr["max"].sum(), n, kw["treatment_fraction"])
    mon.check("structure", (a.post == (a.period >= kw["treatment_period"]).astype(int)).all(), "post indicator")
    mon.check("true-effect", (a.true_effect == kw["treatment_effect"] * a.treated * a.post).all(), "true_effect on the wrong observations")
    slope = 1.0 + (0 if kw["parallel_trends"] else kw["trend_violation"]) * tr["max"].to_numpy()
    laws(mon, mat(a, "outcome", n, T) - mat(a, "true_effect", n, T) - 10 - slope[:, None] * np.arange(T), n, T, fe, noise)
    nt = tr["max"].sum()
    if noise == 0 and kw["parallel_trends"] and 1 < nt < n - 1:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = MultiPeriodDiD().fit(a, outcome="outcome", treatment="treated", time="period", post_periods=list(range(kw["treatment_period"], T)))
        mon.close("recover", [r.period_effects[t].effect for t in range(kw["treatment_period"], T)], [kw["treatment_effect"]] * (T - kw["treatment_period"]), rtol=1e-7, atol=1e-7, msg="event study on noise-free data")
    mon.state("panel", size(n), T, kw["parallel_trends"], noise == 0, fe == 0)
    if maybe(rng, 0.3):
        mon.raises("refuses", (ValueError,), lambda: G.generate_panel_data(n_periods=T, treatment_period=pick(rng, 0, T, T + 3, -1)), "impossible treatment period")


def k_event(mon, rng, tier):
    n, pre, post = int(rng.integers(2, 200)), int(rng.integers(1, 8)), int(rng.integers(1, 8))
    T = pre + post
    fe, noise = sds(rng)
    kw = dict(n_units=n, n_pre=pre, n_post=post, treatment_fraction=float(pick(rng, 0.5, 0.2, 0.75, 0.29)), treatment_effect=eff(rng), unit_fe_sd=fe, noise_sd=noise, seed=int(rng.integers(1e6)))
    a = determinism(mon, G.generate_event_study_data, kw, ["unit", "period", "treated", "post", "outcome", "event_time", "true_effect"])
    panel_shape(mon, a, n, T)
    common(mon, G.generate_event_study_data, kw, a)
    tr = a.groupby("unit").treated.agg(["min", "max"])
    mon.check("structure", (tr["min"] == tr["max"]).all(), "treatment varies in unit")
    share(mon, tr["max"].sum(), n, kw["treatment_fraction"])
    mon.check("structure", (a.event_time == a.period - pre).all() and (a.post == (a.event_time >= 0).astype(int)).all(), "event time / post")
    mon.check("true-effect", (a.true_effect == kw["treatment_effect"] * a.treated * a.post).all(), "true_effect on the wrong observations")
    laws(mon, mat(a, "outcome", n, T) - mat(a, "true_effect", n, T) - 10 - 0.5 * np.arange(T), n, T, fe, noise)
    mon.state("event", size(n), pre, post, noise == 0)


def k_refuse(mon, rng, tier):
    T = int(rng.integers(4, 12))
    mon.raises("refuses", (ValueError,), lambda: G.generate_staggered_data(n_periods=T, cohort_periods=[2, pick(rng, 0, T, T + 2, -1)]), "impossible cohort period")
    mon.state("refuse", T)


TABLES = {"card_krueger": ({"store_id", "state", "chain", "emp_pre", "emp_post", "wage_pre", "wage_post", "treated", "emp_change"}, ["store_id"]),
          "castle_doctrine": ({"state", "year", "first_treat", "homicide_rate", "population", "income", "treated", "cohort"}, ["state", "year"]),
          "divorce_laws": ({"state", "year", "first_treat", "divorce_rate", "female_lfp", "suicide_rate", "treated", "cohort"}, ["state", "year"]),
          "mpdta": ({"countyreal", "year", "lpop", "lemp", "first_treat", "treat"}, ["countyreal", "year"])}


def k_tables(mon, rng, tier):
    np.random.seed(int(rng.integers(1e6)))
    for name, (cols, key) in TABLES.items():
        st = np.random.get_state()[1].copy()
        d = getattr(datasets, f"_construct_{name}_data")()
        np_ok = np.array_equal(st, np.random.get_state()[1])
        mon.check("seed", np_ok, f"{name}: building the table reseeds the global random state")
        mon.check("seed", d.equals(getattr(datasets, f"_construct_{name}_data")()), f"{name}: table not reproducible")
        mon.check("tables", cols <= set(d.columns) and not d.duplicated(key).any() and not d[list(cols)].isna().any().any(), f"{name}: columns {sorted(cols - set(d.columns))} missing, duplicates or gaps")
        if "year" in d:
            u = key[0]
            mon.check("tables", d.groupby(u).size().nunique() == 1 and (d.groupby(u).first_treat.nunique() == 1).all() and (d.cohort == d.first_treat).all(), f"{name}: unbalanced or inconsistent timing")
            on = ((d.first_treat > 0) & (d.year >= d.first_treat)).astype(int)
            mon.check("tables", (d.treated == on).all() if "treated" in d else (d.treat == (d.first_treat > 0).astype(int)).all(), f"{name}: treatment indicator")
            mon.check("tables", ((d.first_treat == 0) | d.first_treat.between(d.year.min(), d.year.max())).all(), f"{name}: adoption outside the panel")
        else:
            mon.check("tables", (d.treated == (d.state == "NJ").astype(int)).all() and np.allclose(d.emp_change, d.emp_post - d.emp_pre), "card_krueger: derived columns")
        mon.state("table", name, len(d))


#: pooled statistics whose mean is known but whose spread is only approximately one
LOOSE = ("cohort", "between-units", "tails-unit", "along-periods", "along-units", "serial", "skew", "tails", "independent", "loadings", "loadings-spread", "age-spread",
         "education-12", "education-14", "education-16", "education-18")


def FINAL(mon, streams, tier):
    for name, v in streams.items():
        v = np.array(v)
        z = v.mean() * np.sqrt(len(v))
        q = (v ** 2).sum()
        p = 2 * min(stats.chi2.cdf(q, len(v)), stats.chi2.sf(q, len(v)))
        mon.describe(**{f"pooled_{name}": f"n={len(v)} z={z:.2f} var={np.mean(v**2):.3f}"})
        mon.check("pooled", abs(z) < 5 and (p > 1e-7 or name in LOOSE), f"{name}: pooled standardised deviations mean {v.mean():.3f} (z {z:.1f}), mean square {np.mean(v**2):.3f} (p {p:.1e})")


KINDS = {"did": (k_did, 80, 1500), "staggered": (k_staggered, 60, 1000), "factor": (k_factor, 60, 1000), "ddd": (k_ddd, 60, 1000), "panel": (k_panel, 60, 1000), "event": (k_event, 60, 1000),
         "refuse": (k_refuse, 10, 60), "tables": (k_tables, 2, 6)}
