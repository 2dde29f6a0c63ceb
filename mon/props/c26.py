"""C26: every estimator recovers the truth on noise-free parallel-trends data, and coinciding designs agree on noisy data."""
import warnings
import numpy as np
import pandas as pd

from mon import gen, refs
from mon.gen import pick, maybe, alpha_of
import diff_diff as dd
from diff_diff.twfe import TwoWayFixedEffects

RULE = ("noise-free panels generated from the identifying assumptions (1-4 cohorts, constant / event-time / cohort-by-time effects, anticipation, unit-constant and time-varying covariates with constant or covariate-specific trends, missing cells, outcome scale 1e-3 to 1e3, level to 1e4) "
        "through every estimator, and noisy panels of designs on which estimators coincide; non-trivial = distinct (estimator, options, effect pattern, panel shape) state")
NOTE = "The oracle is the data-generating process itself (true effect of every cohort and period) or a second estimator run on the same data; nothing is recomputed from the library's formulas."
TECHNIQUE = "runtime monitoring: differential observation of all estimators on shared data, against the known truth of noise-free data-generating processes"
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"did": 60, "mp": 100, "twfe": 80, "cs-cell": 600, "cs-overall": 25, "cs-event": 80, "sa-cell": 300, "sa-event": 80, "bacon": 150, "sdid": 40, "trop": 30, "ddd": 60, "placebo": 80,
            "agree": 300}


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **kw)


def truth(rng, pattern):
    c = float(rng.normal(0, 2))
    th = {e: float(rng.normal(0, 2)) for e in range(-6, 25)}
    cell = {}
    if pattern == "constant":
        return lambda g, s, e: c
    if pattern == "event":
        return lambda g, s, e: th[e]
    return lambda g, s, e: cell.setdefault((g, s), float(rng.normal(0, 2)))


class World:
    """A noise-free panel with a known effect for every cohort and period."""

    def __init__(self, rng, cohorts=None, pattern=None, antic=0, drop=0.0, covs=0, tv=0, trend_cov=0.0, noise=0.0, T=None, **kw):
        T = T or int(rng.integers(4 + antic, 10))
        if cohorts is None:
            lo = 1 + antic
            k = int(rng.integers(1, min(4, T - lo) + 1))
            cohorts = sorted(int(c) for c in rng.choice(np.arange(lo, T), k, replace=False))
        self.idx, self.antic = cohorts, antic
        self.pattern = pattern or pick(rng, "constant", "event", "cell")
        df, m = gen.panel(rng, n_periods=T, cohorts=cohorts, noise=noise, effect=0.0, covs=covs, tv_covs=tv, trend_cov=trend_cov, drop=drop, level=0.0, **kw)
        self.times = m["times"]
        pos = {t: i for i, t in enumerate(self.times)}
        tau = truth(rng, self.pattern)
        self.scale = float(pick(rng, 1, 1, 1e-3, 1e3))
        level = float(pick(rng, 0, 10, 1e4))
        gpos = df.first_treat.map(lambda v: pos.get(v, -1)).to_numpy()
        s = df.time.map(pos).to_numpy()
        ever = df.ever.to_numpy() == 1
        eff = np.array([tau(g, t, t - g) if ev and t >= g - antic else 0.0 for g, t, ev in zip(gpos, s, ever)])
        df["eff"] = eff * self.scale
        df["y"] = (df.y + eff) * self.scale + level
        self.df, self.meta, self.level = df, m, level
        # truth by (first_treat label, time label) and by event time
        self.gt = {(self.times[g], self.times[t]): (tau(g, t, t - g) * self.scale if t >= g - antic else 0.0) for g in cohorts for t in range(T)}
        self.ev = {}
        for g in cohorts:
            for t in range(T):
                self.ev.setdefault(self.times[t] - self.times[g], set()).add(self.gt[(self.times[g], self.times[t])])
        self.tol = 1e-9 * (self.scale * (1 + np.abs(df.y / self.scale).max())) + 1e-8 * self.scale

    def desc(self):
        return f"cohorts {self.idx} T={len(self.times)} {self.pattern} antic={self.antic} scale={self.scale} level={self.level} n={len(self.df)}"


def eq(mon, name, got, want, w, msg, tol=1.0):
    return mon.check(name, got is not None and abs(float(got) - float(want)) <= w.tol * tol, lambda: f"{msg}: {got!r} instead of {want!r} ({w.desc()})")


def event_truth(w, e):
    v = w.ev.get(e)
    return next(iter(v)) if v and len({round(x / w.scale, 9) for x in v}) == 1 else None


# ------------------------------------------------------------------ recovery
def staggered(mon, rng, tier):
    antic = int(pick(rng, 0, 0, 0, 1, 2))
    covs = int(pick(rng, 0, 0, 1, 2))
    trend = float(rng.normal(0, .5)) if covs and maybe(rng) else 0.0
    w = World(rng, antic=antic, covs=covs, trend_cov=trend, drop=float(pick(rng, 0, 0, 0, .08)), min_size=4 + 2 * covs)
    df = w.df
    mon.describe(world=w.desc())
    cov = [f"x{k+1}" for k in range(covs)] if covs and (trend or maybe(rng)) else None
    # CallawaySantAnna
    for _ in range(2):
        method = pick(rng, "dr", "reg", "ipw") if not trend else pick(rng, "dr", "reg")
        p = dict(control_group=pick(rng, "never_treated", "not_yet_treated"), estimation_method=method, base_period=pick(rng, "varying", "universal"), anticipation=antic, alpha=alpha_of(rng))
        tag = f"CallawaySantAnna {p} covariates {cov}"
        try:
            r = quiet(dd.CallawaySantAnna(**p).fit, df, outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=cov, aggregate="all")
        except ValueError as e:
            mon.check("cs-fit", "Could not estimate" in str(e) or "never-treated" in str(e), lambda: f"{tag}: {e}")
            continue
        # a control group too small for the covariates (or a perfectly separated propensity score) identifies nothing
        ok = {k for k, v in r.group_time_effects.items() if not cov or v["n_control"] > 3 + 2 * len(cov)}
        for k, v in r.group_time_effects.items():
            if k in ok and np.isfinite(v["effect"]):
                eq(mon, "cs-cell", v["effect"], w.gt[k], w, f"{tag}: ATT{k}", 1 if not cov else 100)
        mon.state(("cs", p["control_group"], method, p["base_period"], antic, bool(cov), w.pattern, len(w.idx)))
        if len(ok) < len(r.group_time_effects):
            continue
        if w.pattern == "constant" and antic == 0:
            c = w.gt[(w.times[w.idx[0]], w.times[w.idx[0]])]
            eq(mon, "cs-overall", r.overall_att, c, w, f"{tag}: overall", 1 if not cov else 100)
            for g, v in r.group_effects.items():
                eq(mon, "cs-group", v["effect"], c, w, f"{tag}: cohort {g}", 1 if not cov else 100)
        for e, v in r.event_study_effects.items():
            t = event_truth(w, e)
            if t is not None:
                eq(mon, "cs-event", v["effect"], t, w, f"{tag}: event time {e}", 1 if not cov else 100)
    # SunAbraham (linear in the covariates it is given, constant coefficients)
    if not trend:
        scov = None
        tag = f"SunAbraham anticipation {antic}"
        try:
            r = quiet(dd.SunAbraham(anticipation=antic, control_group=pick(rng, "never_treated", "not_yet_treated"), n_bootstrap=0).fit, df, outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=scov)
        except ValueError as e:
            mon.check("sa-fit", "reference period" in str(e), lambda: f"{tag}: {e}")
            r = None
        if r is not None:
            for (g, e), v in (r.cohort_effects or {}).items():
                t = g + e
                if (g, t) in w.gt and np.isfinite(v["effect"]):
                    eq(mon, "sa-cell", v["effect"], w.gt[(g, t)], w, f"{tag}: cohort {g} event time {e}", 10)
            for e, v in r.event_study_effects.items():
                t = event_truth(w, e)
                if t is not None and np.isfinite(v["effect"]):
                    eq(mon, "sa-event", v["effect"], t, w, f"{tag}: event time {e}", 10)
            if w.pattern == "constant" and antic == 0:
                c = w.gt[(w.times[w.idx[0]], w.times[w.idx[0]])]
                eq(mon, "sa-overall", r.overall_att, c, w, f"{tag}: overall", 10)
            mon.state(("sa", antic, w.pattern, len(w.idx)))


def constant(mon, rng, tier):
    """A constant effect is recovered by the two-way fixed effects family under any staggering."""
    tv = int(pick(rng, 0, 0, 1, 2))
    w = World(rng, pattern="constant", drop=float(pick(rng, 0, 0, .1)), tv=tv, min_size=3)
    df = w.df
    mon.describe(world=w.desc())
    c = w.gt[(w.times[w.idx[0]], w.times[w.idx[0]])]
    cov = [f"z{k+1}" for k in range(tv)] or None
    r = quiet(TwoWayFixedEffects(alpha=alpha_of(rng)).fit, df, outcome="y", treatment="D", time="time", unit="unit", covariates=cov)
    eq(mon, "twfe", r.att, c, w, f"TwoWayFixedEffects covariates {cov}", 20)
    mon.state(("twfe", tv, len(w.idx), len(df) == w.meta["n"] * w.meta["T"]))
    if tv:
        r = quiet(dd.SunAbraham(n_bootstrap=0).fit, df, outcome="y", unit="unit", time="time", first_treat="first_treat", covariates=cov)
        for e, v in r.event_study_effects.items():
            if np.isfinite(v["effect"]):
                eq(mon, "sa-event", v["effect"], c if e >= 0 else 0.0, w, f"SunAbraham covariates {cov}: event time {e}", 100)
    elif len(df) == w.meta["n"] * w.meta["T"]:
        b = quiet(dd.BaconDecomposition(weights=pick(rng, "exact", "approximate")).fit, df, outcome="y", unit="unit", time="time", first_treat="first_treat")
        eq(mon, "bacon", b.twfe_estimate, c, w, "Bacon TWFE estimate", 20)
        for k in b.comparisons:
            if k.weight > 0:
                eq(mon, "bacon", k.estimate, c, w, f"Bacon {k.comparison_type} {k.treated_group} vs {k.control_group}", 20)
        mon.state(("bacon", len(w.idx), len(b.comparisons)))
    # TROP, two-step, any penalties: additive data leave nothing for the factor part
    if not tv:
        trop_check(mon, rng, w)


def trop_check(mon, rng, w, joint=False):
    p = dict(method="joint" if joint else "twostep", lambda_time_grid=[float(pick(rng, 0, .3, 1))], lambda_unit_grid=[float(pick(rng, 0, .3))], lambda_nn_grid=[float(pick(rng, .5, 5, 1e6, np.inf))],
             n_bootstrap=3, seed=1, variance_method="jackknife", max_loocv_samples=3, max_iter=1000, tol=1e-9)
    d = w.df.assign(y=(w.df.y - w.level) / w.scale)
    # every treated unit and period needs enough untreated cells around it
    if len(d) > 250:
        return              # cost: one iterative fit per treated cell
    pre = d[d.D == 0].groupby("unit").size()
    if (pre.reindex(d.unit.unique()).fillna(0) < 2).any():
        return
    r = quiet(dd.TROP(**p).fit, d, outcome="y", treatment="D", unit="unit", time="time")
    t = d[d.D == 1].eff.mean() / w.scale
    tag = f"TROP {p}"
    mon.check("trop", abs(r.att - t) <= 1e-4, lambda: f"{tag}: {r.att!r} instead of {t!r} ({w.desc()})")
    if not joint:
        want = {(u, tt): e / w.scale for u, tt, e in zip(d.unit, d.time, d.eff)}
        for k, v in r.treatment_effects.items():
            mon.check("trop-cell", abs(v - want[k]) <= 1e-3, lambda: f"{tag}: effect of {k} {v!r} instead of {want[k]!r} ({w.desc()})")
    mon.state(("trop", p["method"], p["lambda_time_grid"][0], p["lambda_unit_grid"][0], p["lambda_nn_grid"][0], w.pattern))


def single(mon, rng, tier):
    """One adoption date: every estimator of the library applies."""
    T = int(rng.integers(2, 9))
    s = int(rng.integers(1, T))
    pattern = pick(rng, "constant", "event")
    k, n0 = int(rng.integers(2, 12)), int(rng.integers(4, 25))
    w = World(rng, cohorts=[s], T=T, pattern=pattern, sizes=[k, n0])
    df, times = w.df, w.times
    mon.describe(world=w.desc())
    post = times[s:]
    g = times[s]
    mean = float(np.mean([w.gt[(g, t)] for t in post]))
    a = alpha_of(rng)
    r = quiet(dd.DifferenceInDifferences(robust=maybe(rng), alpha=a).fit, df, outcome="y", treatment="ever", time="post")
    eq(mon, "did", r.att, mean, w, "DifferenceInDifferences")
    r = quiet(dd.DifferenceInDifferences(robust=maybe(rng), alpha=a).fit, df, outcome="y", treatment="ever", time="post", **{pick(rng, "absorb", "fixed_effects"): pick(rng, ["unit"], ["time"], ["unit", "time"])})
    eq(mon, "did", r.att, mean, w, "DifferenceInDifferences with fixed effects", 20)
    r = quiet(TwoWayFixedEffects(alpha=a).fit, df, outcome="y", treatment="ever", time="post", unit="unit")
    eq(mon, "twfe", r.att, mean, w, "TwoWayFixedEffects on group x post", 20)
    r = quiet(TwoWayFixedEffects(alpha=a).fit, df, outcome="y", treatment="D", time="time", unit="unit")
    eq(mon, "twfe", r.att, mean, w, "TwoWayFixedEffects on the treatment", 20)
    kw = {"absorb": ["unit"]} if maybe(rng, .4) else {}
    ref = pick(rng, None, *times[:s])
    r = quiet(dd.MultiPeriodDiD(alpha=a).fit, df, outcome="y", treatment="ever", time="time", post_periods=post, reference_period=ref, **kw)
    for t in post:
        eq(mon, "mp", r.period_effects[t].effect, w.gt[(g, t)], w, f"MultiPeriodDiD {kw} reference {ref}: period {t}", 20)
    eq(mon, "mp", r.avg_att, mean, w, "MultiPeriodDiD average", 20)
    r = quiet(dd.SyntheticDiD(lambda_reg=float(pick(rng, 0, 0, 1, 1e4)), zeta=float(pick(rng, 1, .1, 100)), n_bootstrap=3, seed=1, variance_method=pick(rng, "placebo", "bootstrap")).fit,
              df, outcome="y", treatment="ever", unit="unit", time="time", post_periods=post)
    eq(mon, "sdid", r.att, mean, w, "SyntheticDiD", 20)
    if s >= 2:
        trop_check(mon, rng, w, joint=maybe(rng) and pattern == "constant")
    mon.state(("single", T, s, pattern, bool(kw)))
    # placebo analyses see nothing
    if s >= 2:
        fake = times[int(rng.integers(1, s))]
        p = quiet(dd.placebo_timing_test, df, outcome="y", treatment="ever", time="time", fake_treatment_period=fake, post_periods=post)
        eq(mon, "placebo", p.placebo_effect, 0.0, w, f"placebo timing {fake}")
        eq(mon, "placebo", p.original_effect, mean, w, "placebo timing original effect")
        q = quiet(dd.check_parallel_trends, df, outcome="y", time="time", treatment_group="ever", pre_periods=times[:s])
        eq(mon, "placebo", q["trend_difference"], 0.0, w, "check_parallel_trends slope difference", 10)
        if s >= 3 and (k > 1 and n0 > 1):
            q = quiet(dd.equivalence_test_trends, df, outcome="y", time="time", treatment_group="ever", unit="unit", pre_periods=times[:s])
            if np.isfinite(q["mean_difference"]):
                eq(mon, "placebo", q["mean_difference"], 0.0, w, "equivalence test mean difference")
            q = quiet(dd.check_parallel_trends_robust, df, outcome="y", time="time", treatment_group="ever", unit="unit", pre_periods=times[:s], n_permutations=5, seed=1)
            if np.isfinite(q["mean_difference"]):
                eq(mon, "placebo", q["mean_difference"], 0.0, w, "robust check mean difference")
                eq(mon, "placebo", q["wasserstein_distance"], 0.0, w, "robust check distance")
    ctl = df[df.ever == 0].unit.unique().tolist()
    p = quiet(dd.placebo_group_test, df, outcome="y", time="time", unit="unit", treatment="ever", fake_treated_units=ctl[: int(rng.integers(1, len(ctl)))], post_periods=post)
    eq(mon, "placebo", p.placebo_effect, 0.0, w, "placebo group")
    p = quiet(dd.leave_one_out_test, df, outcome="y", treatment="ever", time="post", unit="unit")
    for u, v in p.leave_one_out_effects.items():
        eq(mon, "placebo", v, mean, w, f"leave out {u}")


def triple(mon, rng, tier):
    eff = float(rng.normal(0, 3))
    covs = int(pick(rng, 0, 0, 1, 2))
    df = gen.ddd(rng, effect=eff, noise=0.0, covs=covs, min_cell=6, level=float(pick(rng, 0, 100)))
    sc = float(pick(rng, 1, 1e-3, 1e3))
    df["y"] *= sc
    for m in ("reg", "ipw", "dr"):
        cov = [f"x{k+1}" for k in range(covs)] or None
        if cov and m == "ipw":
            continue        # weighting balances the covariates only up to sampling
        r = quiet(dd.TripleDifference(estimation_method=m).fit, df, outcome="y", group="g", partition="p", time="t", covariates=cov)
        mon.check("ddd", abs(r.att - eff * sc) <= 1e-7 * sc * (1 + abs(df.y / sc).max()), lambda: f"TripleDifference {m} covariates {cov}: {r.att!r} instead of {eff * sc!r}")
        mon.state(("ddd", m, covs, sc))


# ------------------------------------------------------------------ agreement on noisy data
def agree(mon, rng, got, tag, rtol=1e-8, size=0.0):
    """size: magnitude of the outcomes, whose rounding no difference of means escapes."""
    names = sorted(got)
    v = [float(got[k]) for k in names]
    lim = rtol * max(abs(x) for x in v) + 1e-9 * size
    mon.check("agree", all(np.isfinite(v)) and max(v) - min(v) <= lim, lambda: f"{tag}: {dict(zip(names, v))}")


def two_period(mon, rng, tier):
    k, n0 = int(rng.integers(2, 30)), int(rng.integers(3, 60))
    w = World(rng, cohorts=[1], T=2, sizes=[k, n0], noise=1.0, trend_cov=float(pick(rng, 0, .5)), covs=int(pick(rng, 0, 1)), time0=int(pick(rng, 1, 7, 1999)))
    df, (t0, t1) = w.df, w.times
    mon.describe(world=w.desc())
    a = alpha_of(rng)
    S = dict(outcome="y", unit="unit", time="time", first_treat="first_treat")
    got = {"did": quiet(dd.DifferenceInDifferences(alpha=a).fit, df, outcome="y", treatment="ever", time="post").att,
           "did-absorb": quiet(dd.DifferenceInDifferences(alpha=a).fit, df, outcome="y", treatment="ever", time="post", absorb=["unit"]).att,
           "did-formula": quiet(dd.DifferenceInDifferences(alpha=a).fit, df, formula="y ~ ever * post").att,
           "mp": quiet(dd.MultiPeriodDiD(alpha=a).fit, df, outcome="y", treatment="ever", time="time", post_periods=[t1]).avg_att,
           "twfe": quiet(TwoWayFixedEffects(alpha=a).fit, df, outcome="y", treatment="D", time="time", unit="unit").att,
           "twfe-group": quiet(TwoWayFixedEffects(alpha=a).fit, df, outcome="y", treatment="ever", time="time", unit="unit").att,
           "bacon": quiet(dd.BaconDecomposition().fit, df, **S).twfe_estimate,
           "bacon-2x2": quiet(dd.BaconDecomposition().fit, df, **S).comparisons[0].estimate,
           "sa": quiet(dd.SunAbraham(n_bootstrap=0).fit, df, **S).overall_att,
           "sdid": quiet(dd.SyntheticDiD(lambda_reg=1e14 * w.scale ** 2, n_bootstrap=2, seed=0).fit, df, outcome="y", treatment="ever", unit="unit", time="time", post_periods=[t1]).att,
           "group-placebo": quiet(dd.placebo_group_test, df, outcome="y", time="time", unit="unit", fake_treated_units=df[df.ever == 1].unit.unique().tolist(), post_periods=[t1]).placebo_effect,
           "permutation": quiet(dd.permutation_test, df, outcome="y", treatment="ever", time="post", unit="unit", n_permutations=2, seed=0).original_effect}
    for m in ("reg", "ipw", "dr"):
        for cg in ("never_treated", "not_yet_treated"):
            got[f"cs-{m}-{cg}"] = quiet(dd.CallawaySantAnna(estimation_method=m, control_group=cg, base_period=pick(rng, "varying", "universal")).fit, df, **S).overall_att
    agree(mon, rng, got, f"two periods ({w.desc()})", 1e-7, abs(df.y).max())
    mon.state(("two", k, n0))


def one_cohort(mon, rng, tier):
    """One cohort against never-treated units over several periods."""
    T = int(rng.integers(3, 9))
    s = int(rng.integers(1, T))
    w = World(rng, cohorts=[s], T=T, sizes=[int(rng.integers(2, 15)), int(rng.integers(3, 30))], noise=1.0)
    df, times = w.df, w.times
    mon.describe(world=w.desc())
    g, post = times[s], times[s:]
    S = dict(outcome="y", unit="unit", time="time", first_treat="first_treat")
    mp = quiet(dd.MultiPeriodDiD().fit, df, outcome="y", treatment="ever", time="time", post_periods=post)
    b = quiet(dd.BaconDecomposition(weights=pick(rng, "exact", "approximate")).fit, df, **S)
    got = {"did": quiet(dd.DifferenceInDifferences().fit, df, outcome="y", treatment="ever", time="post").att,
           "mp": mp.avg_att,
           "twfe": quiet(TwoWayFixedEffects().fit, df, outcome="y", treatment="D", time="time", unit="unit").att,
           "twfe-post": quiet(TwoWayFixedEffects().fit, df, outcome="y", treatment="ever", time="post", unit="unit").att,
           "did-absorb": quiet(dd.DifferenceInDifferences().fit, df, outcome="y", treatment="ever", time="post", absorb=["unit", "time"]).att,
           "bacon": b.twfe_estimate, "bacon-2x2": sum(c.estimate * c.weight for c in b.comparisons),
           "mp-absorb": quiet(dd.MultiPeriodDiD().fit, df, outcome="y", treatment="ever", time="time", post_periods=post, absorb=["unit"]).avg_att}
    agree(mon, rng, got, f"one cohort, average over periods ({w.desc()})", 1e-7, abs(df.y).max())
    # the period-by-period estimators with a common base period
    cs = quiet(dd.CallawaySantAnna(base_period="universal", estimation_method=pick(rng, "reg", "ipw", "dr")).fit, df, aggregate="event_study", **S)
    cv = quiet(dd.CallawaySantAnna(base_period="varying", estimation_method=pick(rng, "reg", "ipw", "dr")).fit, df, aggregate="event_study", **S)
    sa = quiet(dd.SunAbraham(n_bootstrap=0).fit, df, **S)
    mean = {t: df[df.time == t].groupby("ever").y.mean() for t in times}
    gap = {t: mean[t][1] - mean[t][0] for t in times}
    base = times[s - 1]
    for t in times:
        e = t - g
        if e == -1:
            continue
        x = {"means": gap[t] - gap[base], "cs": cs.group_time_effects[(g, t)]["effect"], "cs-event": cs.event_study_effects[e]["effect"], "sa": sa.event_study_effects[e]["effect"],
             "sa-cohort": sa.cohort_effects[(g, e)]["effect"]}
        if e >= 0:
            x["cs-varying"] = cv.group_time_effects[(g, t)]["effect"]
            x["did-2x2"] = quiet(dd.DifferenceInDifferences().fit, df[df.time.isin([base, t])].assign(p=lambda z: (z.time == t).astype(int)), outcome="y", treatment="ever", time="p").att
        m = max(abs(v) for v in x.values())
        lim = 1e-7 * m + 1e-10 * abs(df.y).max()
        mon.check("agree", max(x.values()) - min(x.values()) <= lim, lambda: f"event time {e}: {x} ({w.desc()})")
    mon.state(("one", T, s))
    # the imputation form of TROP averages to the same number on a block design
    if s < 2:
        return
    d = df.assign(y=(df.y - w.level) / w.scale)
    for m in ("twostep", "joint"):
        r = quiet(dd.TROP(method=m, lambda_time_grid=[0.0], lambda_unit_grid=[0.0], lambda_nn_grid=[np.inf], n_bootstrap=2, seed=0, max_loocv_samples=3, max_iter=5000, tol=1e-12).fit, d, outcome="y", treatment="D", unit="unit", time="time")
        mon.check("agree", abs(r.att - got["did"] / w.scale) <= 1e-4 * (1 + abs(got["did"] / w.scale)), lambda: f"one cohort: TROP {m} {r.att!r}, DiD {got['did'] / w.scale!r} ({w.desc()})")


def many_cohorts(mon, rng, tier):
    """SunAbraham, CallawaySantAnna (universal base, never-treated) and cell means coincide cohort by cohort on balanced panels; Bacon's total is the TWFE estimate."""
    w = World(rng, noise=1.0, min_size=3)
    df, times = w.df, w.times
    mon.describe(world=w.desc())
    S = dict(outcome="y", unit="unit", time="time", first_treat="first_treat")
    sa = quiet(dd.SunAbraham(n_bootstrap=0).fit, df, **S)
    cs = quiet(dd.CallawaySantAnna(base_period="universal", control_group="never_treated", estimation_method=pick(rng, "reg", "ipw", "dr")).fit, df, aggregate="event_study", **S)
    m = df.groupby(["first_treat", "time"]).y.mean()
    for g in w.meta["cohorts"]:
        base = g - 1
        for t in times:
            if t == base:
                continue
            want = (m[(g, t)] - m[(g, base)]) - (m[(0, t)] - m[(0, base)])
            x = {"cs": cs.group_time_effects[(g, t)]["effect"], "means": want}
            if (g, t - g) in sa.cohort_effects:
                x["sa"] = sa.cohort_effects[(g, t - g)]["effect"]
            lim = 1e-7 * max(abs(v) for v in x.values()) + 1e-10 * abs(df.y).max()
            mon.check("agree", max(x.values()) - min(x.values()) <= lim, lambda: f"cohort {g} period {t}: {x} ({w.desc()})")
    b = quiet(dd.BaconDecomposition(weights="exact").fit, df, **S)
    got = {"twfe": quiet(TwoWayFixedEffects().fit, df, outcome="y", treatment="D", time="time", unit="unit").att, "bacon": b.twfe_estimate, "decompose": quiet(TwoWayFixedEffects().decompose, df, **S).twfe_estimate}
    agree(mon, rng, got, f"staggered TWFE ({w.desc()})", 1e-7, abs(df.y).max())
    mon.state(("many", len(w.idx), len(times)))


def triple_as_two(mon, rng, tier):
    """Without covariates a triple difference is the difference of two difference-in-differences."""
    df = gen.ddd(rng, noise=1.0)
    d = [quiet(dd.DifferenceInDifferences().fit, df[df.p == k], outcome="y", treatment="g", time="t").att for k in (0, 1)]
    got = {"two-did": d[1] - d[0]}
    for m in ("reg", "ipw", "dr"):
        got[m] = quiet(dd.TripleDifference(estimation_method=m).fit, df, outcome="y", group="g", partition="p", time="t").att
    got["function"] = quiet(dd.triple_difference, df, outcome="y", group="g", partition="p", time="t").att
    agree(mon, rng, got, "triple difference", 1e-7, abs(df.y).max())
    mon.state(("ddd-agree", len(df)))


KINDS = {"staggered": (staggered, 130, 3000), "constant": (constant, 90, 1800), "single": (single, 90, 2000), "triple": (triple, 60, 1500),
         "two-period": (two_period, 50, 1200), "one-cohort": (one_cohort, 50, 1200), "many-cohorts": (many_cohorts, 50, 1500), "triple-as-two": (triple_as_two, 20, 400)}
