"""C27: reported uncertainty matches the actual sampling variability, over streams of repeated samples."""
import math
import warnings
import numpy as np
import pandas as pd
from scipy import stats

import diff_diff as dd
from diff_diff.twfe import TwoWayFixedEffects
from diff_diff.utils import check_parallel_trends, check_parallel_trends_robust, equivalence_test_trends

RULE = ("a case is a batch of five samples drawn from a known model and run through the library; distinct by (mode); every sample appends "
        "(error, standard error, covers, p-value) to its stream, and the offline checker judges whole streams (bias, mean variance against "
        "sampling variance, coverage, size, power)")
NOTE = ("statistical: each stream's tolerance is a fixed band around the promised value plus 4.75 Monte Carlo standard errors; SunAbraham's bootstrap, "
        "SyntheticDiD, TROP and the wild bootstrap have wider bands because their approximations are coarser at the sizes run here")
TECHNIQUE = "offline checker over recorded streams of repeated estimations on samples from known models (calibration of standard errors, intervals, p-values, predicted power)"
LEVEL = "exploration"
ASSUMPTIONS = ["the generators follow the model each estimator is documented for (parallel trends, independent units or clusters)"]
REQUIRED = {"sample": 6000, "standard-error": 40, "coverage": 40, "size": 25, "bias": 40, "power": 3}


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **kw)


def put(mon, name, est, truth, se, lo, hi, p):
    """One sample of a stream: error, standard error, does the interval cover, p-value."""
    mon.saw("sample")
    mon.stream(name, (float(est) - truth, float(se), float(lo) <= truth <= float(hi), float(p), truth == 0))


def inf_of(e):
    lo, hi = e.conf_int
    return e.se, lo, hi, e.p_value


def dct(v):
    lo, hi = v["conf_int"]
    return v["se"], lo, hi, v["p_value"]


# ---------------------------------------------------------------- worlds
def panel(rng, n, T, cohorts, share, effect=lambda g, t: 0.0, ar=0.0, unit_sd=1.0, het=False, x=False, random_groups=False, tv=False):
    """cohorts: first treated period index per group (None = never). Returns long frame; periods 1..T."""
    k = len(cohorts)
    if random_groups:
        gi = rng.choice(k, n, p=share)
    else:
        gi = np.repeat(np.arange(k), [int(round(s * n)) for s in share])
        n = len(gi)
    X = rng.normal(0, 1, n) + (0.5 * (gi % 2) if x else 0)
    e = rng.normal(0, 1, (n, T))
    for t in range(1, T):
        e[:, t] = ar * e[:, t - 1] + math.sqrt(1 - ar * ar) * e[:, t]
    if het:
        e *= (0.6 + 0.9 * (gi[:, None] % 2))
    y = rng.normal(0, unit_sd, n)[:, None] + 0.3 * np.arange(T)[None, :] + e
    if x:
        y = y + 0.5 * X[:, None] * np.arange(T)[None, :]
    g = np.array([c if c is not None else 10 ** 6 for c in cohorts])[gi]
    D = (np.arange(T)[None, :] >= g[:, None]).astype(int)
    tau = np.zeros((n, T))
    for i, c in enumerate(cohorts):
        if c is None:
            continue
        for t in range(c, T):
            tau[gi == i, t] = effect(c, t)
    y = y + tau
    df = pd.DataFrame({"unit": np.repeat(np.arange(n), T), "time": np.tile(np.arange(1, T + 1), n), "y": y.ravel(), "D": D.ravel(),
                       "ever": np.repeat((g < T).astype(int), T), "ft": np.repeat(np.where(g < T, g + 1, 0), T), "x": np.repeat(X, T)})
    if tv:
        df["z"] = rng.normal(0, 1, n * T) + 0.4 * df.D
        df["y"] += 0.7 * df.z
    return df


S = dict(outcome="y", unit="unit", time="time", first_treat="ft")


# ---------------------------------------------------------------- regression estimators
def did_cross(mon, rng, het, **kw):
    n = 160
    tr, po = rng.integers(0, 2, n), rng.integers(0, 2, n)
    x = rng.normal(0, 1, n) + .3 * tr
    sd = (0.5 + 1.5 * tr * po) if het else 1.0
    df = pd.DataFrame({"tr": tr, "po": po, "x": x, "y": 1 + tr + po + .5 * x + sd * rng.normal(0, 1, n)})
    return df


def m_did_classical(mon, rng):
    df = did_cross(mon, rng, False)
    r = quiet(dd.DifferenceInDifferences(robust=False).fit, df, outcome="y", treatment="tr", time="po", covariates=["x"])
    put(mon, "did-classical", r.att, 0, *inf_of(r))
    r = quiet(dd.DifferenceInDifferences(robust=True).fit, df, outcome="y", treatment="tr", time="po", covariates=["x"])
    put(mon, "did-hc1-homoskedastic", r.att, 0, *inf_of(r))


def m_did_robust(mon, rng):
    df = did_cross(mon, rng, True)
    r = quiet(dd.DifferenceInDifferences(robust=True).fit, df, outcome="y", treatment="tr", time="po", covariates=["x"])
    put(mon, "did-hc1", r.att, 0, *inf_of(r))


def clustered(rng, G, m=8):
    """Cluster-level treatment, two periods, cluster x period shocks."""
    cl = np.repeat(np.arange(G), m)
    tr = (np.arange(G) % 2)[cl]
    u0, u1 = rng.normal(0, .8, G), rng.normal(0, .8, G)
    rows = [pd.DataFrame({"cl": cl, "tr": tr, "po": t, "y": 1 + tr + t + (u0, u1)[t][cl] + rng.normal(0, 1, len(cl))}) for t in (0, 1)]
    return pd.concat(rows, ignore_index=True)


def m_did_cluster(mon, rng):
    df = clustered(rng, 50)
    r = quiet(dd.DifferenceInDifferences(cluster="cl").fit, df, outcome="y", treatment="tr", time="po")
    put(mon, "did-cluster", r.att, 0, *inf_of(r))
    r = quiet(dd.DifferenceInDifferences(cluster="cl").fit, df, outcome="y", treatment="tr", time="po", absorb=["cl"])
    put(mon, "did-cluster-absorb", r.att, 0, *inf_of(r))
    r = quiet(TwoWayFixedEffects(cluster="cl").fit, df.assign(id=df.cl * 100 + df.groupby(["cl", "po"]).cumcount()), outcome="y", treatment="tr", time="po", unit="id")
    put(mon, "twfe-cluster", r.att, 0, *inf_of(r))


def m_wild(mon, rng):
    df = clustered(rng, 16, 4)
    for wt in (("rademacher", "webb", "mammen")[int(rng.integers(3))],):
        r = quiet(dd.DifferenceInDifferences(cluster="cl", inference="wild_bootstrap", n_bootstrap=99, bootstrap_weights=wt, seed=int(rng.integers(1 << 30))).fit, df, outcome="y", treatment="tr", time="po")
        put(mon, f"wild-{wt}", r.att, 0, *inf_of(r))


def m_mp(mon, rng):
    df = panel(rng, 60, 6, [3, None], [.5, .5], unit_sd=1.0, ar=0.5)
    r = quiet(dd.MultiPeriodDiD(cluster="unit").fit, df, outcome="y", treatment="ever", time="time", post_periods=[4, 5, 6])
    put(mon, "mp-cluster-average", r.avg_att, 0, r.avg_se, *r.avg_conf_int, r.avg_p_value)
    e = r.period_effects[5]
    put(mon, "mp-cluster-period", e.effect, 0, *inf_of(e))
    df = panel(rng, 60, 6, [3, None], [.5, .5], unit_sd=0.0, ar=0.0)
    r = quiet(dd.MultiPeriodDiD(robust=False).fit, df, outcome="y", treatment="ever", time="time", post_periods=[4, 5, 6])
    put(mon, "mp-classical-average", r.avg_att, 0, r.avg_se, *r.avg_conf_int, r.avg_p_value)
    e = r.period_effects[5]
    put(mon, "mp-classical-period", e.effect, 0, *inf_of(e))


def m_twfe(mon, rng):
    df = panel(rng, 60, 8, [2, 5, None], [.3, .3, .4], ar=.6, effect=lambda g, t: 1.0, tv=True)
    r = quiet(TwoWayFixedEffects().fit, df, outcome="y", treatment="D", time="time", unit="unit", covariates=["z"])
    put(mon, "twfe-unit", r.att, 1.0, *inf_of(r))
    df = panel(rng, 40, 6, [3, None], [.5, .5], ar=0)
    r = quiet(dd.DifferenceInDifferences(robust=False).fit, df.assign(po=(df.time > 3) * 1), outcome="y", treatment="ever", time="po", absorb=["unit", "time"])
    put(mon, "did-absorb-classical", r.att, 0, *inf_of(r))
    r = quiet(dd.DifferenceInDifferences(robust=False).fit, df.assign(po=(df.time > 3) * 1), outcome="y", treatment="ever", time="po", fixed_effects=["unit", "time"])
    put(mon, "did-dummies-classical", r.att, 0, *inf_of(r))


# ---------------------------------------------------------------- staggered estimators
EFF = lambda g, t: 1.0 * (g == 2) + 0.3 * (t - g)


def true_overall(df_cells):
    w = sum(n for n, _ in df_cells)
    return sum(n * e for n, e in df_cells) / w


def put_cs(mon, tag, r, eff, T, shares):
    """shares: {cohort label: population share}"""
    truth = lambda g, t: eff(g - 1, t - 1) if t >= g else 0.0
    gt = [(g, t) for g in shares for t in range(g, T + 1)]
    put(mon, f"{tag}-cell", r.group_time_effects[(3, 5)]["effect"], truth(3, 5), *dct(r.group_time_effects[(3, 5)]))
    put(mon, f"{tag}-pre-cell", r.group_time_effects[(5, 2)]["effect"], 0.0, *dct(r.group_time_effects[(5, 2)]))
    w = sum(shares[g] for g, t in gt)
    put(mon, f"{tag}-overall", r.overall_att, sum(shares[g] * truth(g, t) for g, t in gt) / w, r.overall_se, *r.overall_conf_int, r.overall_p_value)
    for e in (-2, 0, 1):
        gs = [g for g in shares if 1 <= g + e <= T]
        v = r.event_study_effects[e]
        put(mon, f"{tag}-event{e}", v["effect"], sum(shares[g] * truth(g, g + e) for g in gs) / sum(shares[g] for g in gs), *dct(v))
    if getattr(r, "group_effects", None):
        v = r.group_effects[3]
        put(mon, f"{tag}-cohort", v["effect"], np.mean([truth(3, t) for t in range(3, T + 1)]), *dct(v))


def m_cs(mon, rng):
    method = ("dr", "reg", "ipw")[int(rng.integers(3))]
    cg = ("never_treated", "not_yet_treated")[int(rng.integers(2))]
    bp = ("varying", "universal")[int(rng.integers(2))]
    df = panel(rng, 120, 6, [2, 4, None], [.3, .3, .4], effect=EFF, ar=.5, het=True, random_groups=True)
    r = quiet(dd.CallawaySantAnna(estimation_method=method, control_group=cg, base_period=bp).fit, df, aggregate="all", **S)
    put_cs(mon, f"cs", r, EFF, 6, {3: .5, 5: .5})


def m_cs_random(mon, rng):
    df = panel(rng, 120, 6, [2, 4, None], [.3, .3, .4], effect=lambda g, t: 6.0 * (g == 2), random_groups=True)
    r = quiet(dd.CallawaySantAnna().fit, df, aggregate="all", **S)
    put_cs(mon, "cs-random-shares", r, lambda g, t: 6.0 * (g == 2), 6, {3: .5, 5: .5})


def m_cs_cov(mon, rng):
    method = ("dr", "reg", "ipw")[int(rng.integers(3))]
    df = panel(rng, 240, 6, [2, 4, None], [.25, .25, .5], effect=EFF, x=True, random_groups=True)
    r = quiet(dd.CallawaySantAnna(estimation_method=method).fit, df, aggregate="all", covariates=["x"], **S)
    put_cs(mon, f"cs-cov-{method}", r, EFF, 6, {3: .5, 5: .5})


def m_cs_boot(mon, rng):
    wt = ("rademacher", "mammen", "webb")[int(rng.integers(3))]
    df = panel(rng, 120, 6, [2, 4, None], [.3, .3, .4], effect=lambda g, t: 6.0 * (g == 2), ar=.5, random_groups=True)
    r = quiet(dd.CallawaySantAnna(n_bootstrap=199, bootstrap_weights=wt, seed=int(rng.integers(1 << 30))).fit, df, aggregate="all", **S)
    put_cs(mon, f"cs-boot-{wt}", r, lambda g, t: 6.0 * (g == 2), 6, {3: .5, 5: .5})


def m_sa(mon, rng):
    df = panel(rng, 120, 6, [2, 4, None], [.3, .3, .4], effect=EFF, ar=.5)
    r = quiet(dd.SunAbraham(control_group=("never_treated", "not_yet_treated")[int(rng.integers(2))]).fit, df, **S)
    put_cs_sa(mon, "sa", r)


def put_cs_sa(mon, tag, r, cohorts=(3, 5), T=6):
    tr = lambda g, e: EFF(g - 1, g + e - 1) if e >= 0 else 0.0
    for e in (-2, 0, 1):
        v = r.event_study_effects[e]
        put(mon, f"{tag}-event{e}", v["effect"], np.mean([tr(g, e) for g in cohorts]), *dct(v))
    w = {(g, e): 1 for g in cohorts for e in range(0, T + 1 - g)}
    # overall: event-time weights by treated observations
    put(mon, f"{tag}-overall", r.overall_att, sum(tr(*k) for k in w) / len(w), r.overall_se, *r.overall_conf_int, r.overall_p_value)


def m_sa_boot(mon, rng):
    df = panel(rng, 50, 5, [2, 3, None], [.3, .3, .4], effect=EFF, ar=.5)
    r = quiet(dd.SunAbraham(n_bootstrap=30, seed=int(rng.integers(1 << 30))).fit, df, **S)
    put_cs_sa(mon, "sa-boot", r, (3, 4), 5)


# ---------------------------------------------------------------- synthetic control family
def m_sdid(mon, rng):
    df = panel(rng, 40, 8, [5, None], [.25, .75], effect=lambda g, t: 1.0, unit_sd=1)
    for vm in ("placebo", "bootstrap"):
        r = quiet(dd.SyntheticDiD(variance_method=vm, n_bootstrap=60, seed=int(rng.integers(1 << 30))).fit, df, outcome="y", treatment="ever", unit="unit", time="time", post_periods=[6, 7, 8])
        put(mon, f"sdid-{vm}", r.att, 1.0, r.se, *r.conf_int, r.p_value)
    df = panel(rng, 40, 8, [5, None], [.25, .75], effect=lambda g, t: 0.0, unit_sd=1)
    r = quiet(dd.SyntheticDiD(variance_method="placebo", n_bootstrap=60, seed=int(rng.integers(1 << 30))).fit, df, outcome="y", treatment="ever", unit="unit", time="time", post_periods=[6, 7, 8])
    put(mon, "sdid-null", r.att, 0.0, r.se, *r.conf_int, r.p_value)


def m_trop(mon, rng):
    df = panel(rng, 24, 6, [4, None], [.25, .75], effect=lambda g, t: 1.0, unit_sd=1)
    for method, vm in (("joint", "bootstrap"), ("joint", "jackknife")) if rng.random() < .6 else (("twostep", "jackknife"), ("twostep", "bootstrap")):
        r = quiet(dd.TROP(method=method, variance_method=vm, n_bootstrap=30, lambda_time_grid=[0.1], lambda_unit_grid=[0.1], lambda_nn_grid=[5.0], max_loocv_samples=2, tol=1e-4,
                          seed=int(rng.integers(1 << 30))).fit, df, outcome="y", treatment="D", unit="unit", time="time")
        put(mon, f"trop-{method}-{vm}", r.att, 1.0, r.se, *r.conf_int, r.p_value)


# ---------------------------------------------------------------- triple difference
def m_ddd(mon, rng):
    n = 320
    g, p, t = rng.integers(0, 2, n), rng.integers(0, 2, n), rng.integers(0, 2, n)
    x = rng.normal(0, 1, n) + .4 * g * p
    sd = 0.7 + .8 * g * p
    df = pd.DataFrame({"g": g, "p": p, "t": t, "x": x, "y": 1 + g + p + t + .5 * g * t + .4 * p * t + .6 * x + sd * rng.normal(0, 1, n)})
    for m in ("reg", "ipw", "dr"):
        r = quiet(dd.TripleDifference(estimation_method=m).fit, df, outcome="y", group="g", partition="p", time="t")
        put(mon, f"ddd-{m}", r.att, 0, *inf_of(r))
        r = quiet(dd.TripleDifference(estimation_method=m).fit, df, outcome="y", group="g", partition="p", time="t", covariates=["x"])
        put(mon, f"ddd-cov-{m}", r.att, 0, *inf_of(r))


# ---------------------------------------------------------------- diagnostics
def m_diag(mon, rng):
    df = panel(rng, 40, 6, [3, None], [.5, .5], unit_sd=0.0)
    df["po"] = (df.time > 3) * 1
    r = quiet(dd.permutation_test, df, outcome="y", treatment="ever", time="po", unit="unit", n_permutations=99, seed=int(rng.integers(1 << 30)))
    put(mon, "permutation", r.original_effect, 0, r.se, *r.conf_int, r.p_value)
    q = quiet(dd.placebo_timing_test, df, outcome="y", treatment="ever", time="time", fake_treatment_period=2, post_periods=[4, 5, 6])
    put(mon, "placebo-timing", q.placebo_effect, 0, q.se, *q.conf_int, q.p_value)
    ctl = df[df.ever == 0].unit.unique()
    q = quiet(dd.placebo_group_test, df, outcome="y", time="time", unit="unit", fake_treated_units=list(ctl[:10]), post_periods=[4, 5, 6])
    put(mon, "placebo-group", q.placebo_effect, 0, q.se, *q.conf_int, q.p_value)
    q = quiet(check_parallel_trends, df, outcome="y", time="time", treatment_group="ever", pre_periods=[1, 2, 3])
    mon.stream("trends", (q["trend_difference"], q["trend_difference_se"], True, q["p_value"], True))
    df["y"] = df.sort_values(["unit", "time"]).groupby("unit").y.cumsum()      # independent changes
    q = quiet(check_parallel_trends_robust, df, outcome="y", time="time", treatment_group="ever", unit="unit", pre_periods=[1, 2, 3], n_permutations=99, seed=int(rng.integers(1 << 30)))
    mon.stream("trends-robust", (0, 1, True, q["wasserstein_p_value"], True))
    mon.stream("trends-ks", (0, 1, True, q["ks_p_value"], True))
    for off in (0.0, 1.0):
        d2 = df.copy()
        margin = 0.6
        d2["y"] += off * margin * d2.ever * d2.time
        q = quiet(equivalence_test_trends, d2, outcome="y", time="time", treatment_group="ever", unit="unit", pre_periods=[1, 2, 3], equivalence_margin=margin)
        mon.stream(f"equivalence-{int(off)}", (0, 1, True, q["tost_p_value"], off == 1.0))


def m_honest(mon, rng):
    """Post-period violations M times the largest pre-period one: the robust interval still covers the effect."""
    T, s = 7, 4
    df = panel(rng, 60, T, [s, None], [.5, .5], effect=lambda g, t: 1.0)
    d = 1.0
    M = float((0.5, 1.0)[int(rng.integers(2))])
    bump = {1: d, 2: -d, 3: 0.0, 4: 0.0, 5: 0, 6: 0, 7: 0}
    df["y"] += df.ever * df.time.map({1: d, 2: -.5 * d, 3: 0, 4: 0, 5: M * d, 6: M * d, 7: M * d})
    r = quiet(dd.CallawaySantAnna(base_period="universal").fit, df, aggregate="event_study", **S)
    h = quiet(dd.HonestDiD(method="relative_magnitude", M=M).fit, r)
    put(mon, f"honest-rm-{M}", h.original_estimate, 1.0, h.original_se, h.ci_lb, h.ci_ub, 1)


def m_power(mon, rng):
    """Analytical power of the two-period design against the rejections of the library's own test."""
    i = int(rng.integers(3))
    nt, nc, sig, eff = ((25, 60, 2.0, 1.5), (40, 40, 1.0, .5), (80, 20, .5, .4))[i]
    alt = "two-sided"
    df = pd.concat([pd.DataFrame({"tr": np.repeat([1, 0], [nt, nc]), "po": t}) for t in (0, 1)], ignore_index=True)
    df["y"] = 3 + df.tr + df.po + eff * df.tr * df.po + rng.normal(0, sig, len(df))
    r = quiet(dd.DifferenceInDifferences(robust=False).fit, df, outcome="y", treatment="tr", time="po")
    w = dd.PowerAnalysis(alpha=.05).power(effect_size=eff, n_treated=nt, n_control=nc, sigma=sig)
    mon.stream("power-basic", (float(w.power), float(r.p_value <= .05)))
    # panel
    T0, T1, rho = ((3, 3, 0.0), (4, 2, 0.5), (2, 6, 0.3))[i]
    n, T = nt + nc, T0 + T1
    tr = np.repeat((np.arange(n) < nt).astype(int), T)
    t = np.tile(np.arange(T), n)
    e = sig * (math.sqrt(rho) * np.repeat(rng.normal(0, 1, n), T) + math.sqrt(1 - rho) * rng.normal(0, 1, n * T))
    P = pd.DataFrame({"unit": np.repeat(np.arange(n), T), "tr": tr, "po": (t >= T0).astype(int), "y": e + eff / 2 * tr * (t >= T0)})
    r = quiet(TwoWayFixedEffects().fit, P.assign(time=t), outcome="y", treatment="tr", time="po", unit="unit")
    w = dd.PowerAnalysis(alpha=.05).power(effect_size=eff / 2, n_treated=nt, n_control=nc, sigma=sig, n_pre=T0, n_post=T1, rho=rho)
    # what the documented (approximate) panel variance sigma^2 (1/nT + 1/nC) (1 + (T-1) rho) / T predicts
    se = math.sqrt(sig ** 2 * (1 / nt + 1 / nc) * (1 + (T - 1) * rho) / T)
    z = stats.norm.ppf(.975)
    doc = stats.norm.sf(z - eff / 2 / se) + stats.norm.cdf(-z - eff / 2 / se)
    mon.stream(f"power-panel-{i}", (float(w.power), float(r.p_value <= .05), doc))


MODES = {"honest": m_honest, "power": m_power, "did-classical": m_did_classical, "did-robust": m_did_robust, "did-cluster": m_did_cluster, "wild": m_wild, "mp": m_mp, "twfe": m_twfe, "cs": m_cs, "cs-random": m_cs_random, "cs-cov": m_cs_cov,
         "cs-boot": m_cs_boot, "sa": m_sa, "sa-boot": m_sa_boot, "sdid": m_sdid, "trop": m_trop, "ddd": m_ddd, "diag": m_diag}


def case(mode, reps):
    def f(mon, rng, tier):
        for _ in range(reps):
            MODES[mode](mon, rng)
        mon.state(mode)
    return f


COST = {"sa-boot": 30, "sdid": 26, "trop": 30, "wild": 90, "diag": 60, "cs-boot": 150, "ddd": 150}
KINDS = {m: (case(m, 5), COST.get(m, 180), COST.get(m, 180) * 4) for m in MODES}

# stream prefix -> what the statistic promises, as bands on (mean variance / true variance)^.5, coverage of the 95% interval and
# rejection rate under the null; the Monte Carlo error of the stream is added on top. First match wins.
Z = 4.75
BANDS = [
    # few clusters, interval from draws: conservative tests, slightly short intervals
    ("wild-", dict(ratio=(.80, 1.12), cover=(.85, .985), rej=(0, .08))),
    # 30 pairs-bootstrap draws: percentile intervals
    ("sa-boot", dict(ratio=(.90, 1.30), cover=(.86, .985), rej=(.02, .14))),
    ("sdid-bootstrap", dict(ratio=(.95, 1.45), cover=(.93, 1), rej=(0, .08))),
    ("sdid-", dict(ratio=(.88, 1.25), cover=(.915, .985), rej=(.015, .085))),
    ("trop-", dict(ratio=(.78, 1.20), cover=(.83, .985), bias=.30)),
    # the point estimate is biased by design here: the robust interval has to cover anyway
    ("honest-", dict(ratio=(.90, 1.10), cover=(.945, 1), bias=None, rej=None)),
    ("permutation", dict(ratio=(.92, 1.10), cover=None, rej=(.02, .075))),
    ("trends-", dict(ratio=None, cover=None, bias=None, rej=(.01, .08))),
    ("trends", dict(ratio=(.92, 1.10), cover=None, rej=(.02, .075))),
    ("equivalence", dict(ratio=None, cover=None, bias=None, rej=(.0, .075))),
    ("", dict(ratio=(.92, 1.10), cover=(.925, .975), bias=.03, rej=(.025, .075))),
]


def FINAL(mon, streams, tier):
    power = {k: v for k, v in streams.items() if k.startswith("power-")}
    for name, rows in sorted(streams.items()):
        if name in power or len(rows) < 40:
            continue
        band = {"bias": .03, **next(b for pre, b in BANDS if name.startswith(pre))}
        a = np.array([r[:4] for r in rows], float)
        e, se, cov, p = a.T
        null = all(r[4] for r in rows)
        n = len(a)
        mon.check("finite", np.isfinite(a).all(), f"{name}: {int((~np.isfinite(a)).sum())} undefined numbers in {n} regular samples")
        ok = np.isfinite(a).all(axis=1)
        e, se, cov, p = a[ok].T
        n = len(e)
        sd = e.std(ddof=1)
        if band["bias"] is not None:
            mon.check("bias", abs(e.mean()) <= sd * (Z / math.sqrt(n) + band["bias"]),
                      f"{name}: the mean error over {n} samples is {e.mean():.4g} = {e.mean() / sd:+.3f} sampling standard deviations", key=f"bias-{name}")
        if band["ratio"]:
            v, w = se ** 2, (e - e.mean()) ** 2
            ratio = math.sqrt(v.mean() / w.mean())
            tol = Z * .5 * np.std(v / v.mean() - w / w.mean()) / math.sqrt(n)
            lo, hi = band["ratio"]
            mon.check("standard-error", lo * math.exp(-tol) <= ratio <= hi * math.exp(tol),
                      f"{name}: over {n} samples the reported standard error is {ratio:.3f} times the sampling standard deviation (allowed {lo:.2f}-{hi:.2f}, Monte Carlo +-{tol:.3f})",
                      key=f"se-{name}")
        if band["cover"]:
            lo, hi = band["cover"]
            tol = lambda q: (Z * math.sqrt(q * (1 - q) * n) + 2) / n
            mon.check("coverage", lo - tol(lo) <= cov.mean() <= hi + tol(hi), f"{name}: the 95% interval covers the truth in {cov.mean():.3f} of {n} samples", key=f"coverage-{name}")
        if band.get("rej") and null:
            for al in (.05, .10):
                lo, hi = (b * al / .05 if j == 0 else b + (al - .05) * 1.3 for j, b in enumerate(band["rej"]))
                tol = lambda q: (Z * math.sqrt(max(q, .01) * (1 - q) * n) + 2) / n
                r = (p <= al).mean()
                mon.check("size", lo - tol(lo) <= r <= hi + tol(hi), f"{name}: a true null is rejected at level {al} in {r:.3f} of {n} samples", key=f"size-{name}")
        mon.state("stream", name, null)
    for name, rows in sorted(power.items()):
        a = np.array(rows, float)
        n = len(a)
        pred, got = a[:, 0].mean(), a[:, 1].mean()
        close = abs(pred - got) <= Z * .5 / math.sqrt(n) + .03
        if name == "power-basic":
            mon.check("power", close, f"predicted power {pred:.3f}, observed rejection rate {got:.3f} in {n} samples", key="power-basic")
        else:
            documented = np.allclose(a[:, 0], a[:, 2], atol=1e-4)
            mon.check("power", close, f"{name}: predicted power {pred:.3f}, observed rejection rate {got:.3f} in {n} samples", key="panel-power-formula" if documented else "panel-power")
        mon.state("power", name)
