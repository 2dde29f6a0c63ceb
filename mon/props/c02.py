"""C02: the derived inference fields of every result agree with each other."""
import warnings
import numpy as np
import pandas as pd
from scipy import stats, optimize

from mon import refs, zoo, gen
from mon.gen import pick, maybe, alpha_of
import diff_diff as dd
from diff_diff.linalg import LinearRegression
from diff_diff.utils import compute_confidence_interval, compute_p_value

RULE = ("every estimator and diagnostic with random options on ordinary data and on degenerate data (constant outcome, exact fit, saturated design, one treated or one control unit, "
        "one or two bootstrap draws, duplicated covariates, tiny and huge outcomes), any alpha; non-trivial = distinct (result type, inference mode, degeneracy) state")
NOTE = ("The oracle recomputes t from estimate and SE, infers the reference distribution from the interval's critical value, requires it to be the documented one (normal, or t with the result's degrees of freedom) "
        "and recomputes the p-value from it; bootstrap and permutation p-values are recomputed from the stored draws.")
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"t": 2000, "interval": 2000, "p-value": 900, "flags": 1500, "stored-draws": 60, "helpers": 300, "undefined": 10, "zero-se": 20}


def rows(r):
    """(level, estimate, se, t, p, ci, mode) of every inference statement in a result."""
    n = type(r).__name__
    if n in ("DiDResults", "TripleDifferenceResults", "TROPResults", "SyntheticDiDResults"):
        mode = {"DiDResults": "wild" if getattr(r, "inference_method", "") == "wild_bootstrap" else "t", "TripleDifferenceResults": "t",
                "TROPResults": "t", "SyntheticDiDResults": "placebo" if getattr(r, "variance_method", "") == "placebo" else "z"}[n]
        yield "overall", r.att, r.se, r.t_stat, r.p_value, r.conf_int, mode
    elif n == "MultiPeriodDiDResults":
        yield "overall", r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, "t"
        for p, e in r.period_effects.items():
            yield f"period {p}", e.effect, e.se, e.t_stat, e.p_value, e.conf_int, "t"
    elif n in ("CallawaySantAnnaResults", "SunAbrahamResults"):
        mode = "boot" if r.bootstrap_results is not None else "z"
        yield "overall", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, mode
        for fam in ("event_study_effects", "group_time_effects", "group_effects"):
            for k, e in (getattr(r, fam, None) or {}).items():
                yield f"{fam}[{k}]", e["effect"], e["se"], e["t_stat"], e["p_value"], e["conf_int"], \
                    "reference" if e.get("n_groups", 1) == 0 else mode
    elif n == "PlaceboTestResults":
        perm = r.test_type == "permutation"
        yield "overall", r.original_effect if perm else r.placebo_effect, r.se, r.t_stat, r.p_value, r.conf_int, "perm" if perm else "t"


def implied_df(q, alpha):
    """Degrees of freedom whose critical value is q (inf when normal)."""
    z = stats.norm.ppf(1 - alpha / 2)
    if abs(q - z) <= 1e-7 * z:
        return np.inf
    if q < z:
        return None
    f = lambda ld: stats.t.ppf(1 - alpha / 2, np.exp(ld)) - q
    try:
        return float(np.exp(optimize.brentq(f, np.log(.5), np.log(1e9), xtol=1e-13)))
    except ValueError:
        return None


def audit(mon, r, alpha, tag, degenerate=False, df=None):
    dfs = []
    n = type(r).__name__
    for lab, est, se, t, p, ci, mode in rows(r):
        m = f"{tag} {n} {lab} ({mode}): est={est} se={se} t={t} p={p} ci={ci} alpha={alpha}"
        mon.state(n, lab.split("[")[0].split(" ")[0], mode, degenerate, "nan-se" if not np.isfinite(se) else "zero" if se == 0 else "pos")
        mon.check("flags", not (np.isfinite(p) and not 0 <= p <= 1), f"p outside [0,1]: {m}")
        mon.check("flags", not (np.isfinite(ci[0]) and np.isfinite(ci[1]) and ci[0] > ci[1]), f"interval reversed: {m}")
        if mode == "reference":
            mon.check("undefined", est == 0 and not np.isfinite(se) and not np.isfinite(t) and not np.isfinite(p), f"normalised period carries inference: {m}")
            continue
        if not np.isfinite(se):
            if mode == "perm":
                continue
            mon.check("undefined", not np.isfinite(t) and not np.isfinite(p) and not np.isfinite(ci[0]) and not np.isfinite(ci[1]), f"undefined SE: {m}")
            continue
        mon.check("t", se >= 0, f"negative SE: {m}")
        if se == 0 and mode == "wild" and abs(t) > 1e8:
            continue                       # an exact fit up to rounding
        if se == 0:
            mon.check("zero-se", not (np.isfinite(t) and t != 0), f"zero SE: {m}")
            continue
        if not np.isfinite(est):
            mon.check("undefined", not np.isfinite(p), f"undefined estimate: {m}")
            continue
        if se <= 1e-13 * abs(est):
            continue                       # an exact fit up to rounding: the ratio is noise
        if mode == "wild":                 # the statistic whose bootstrap distribution gives the p-value
            key = next((k for k in ("ATT", *[x for x in (r.coefficients or {}) if ":" in str(x)]) if k in (r.coefficients or {})), None)
            v = np.asarray(r.vcov) if r.vcov is not None else None
            if key is not None and v is not None and v.shape[0] == len(r.coefficients):
                i = list(r.coefficients).index(key)
                if v[i, i] > 0:
                    mon.close("t", t, est / np.sqrt(v[i, i]), rtol=1e-6, atol=1e-9, msg=m)
        else:
            mon.close("t", t, est / se, rtol=1e-6, atol=1e-9, msg=m)
        if mode in ("wild", "boot", "perm"):
            mon.check("interval", np.isfinite(ci[0]) and np.isfinite(ci[1]), m)
            continue
        mid, half = (ci[0] + ci[1]) / 2, (ci[1] - ci[0]) / 2
        mon.close("interval", mid, est, rtol=1e-9, atol=1e-9 * se + 1e-12 * abs(est), msg=f"interval not centred on the estimate: {m}")
        q = half / se
        if abs(est) > 1e6 * se:
            continue                       # critical value lost in the rounding of the bounds
        if mode in ("z", "placebo"):
            mon.close("interval", q, stats.norm.ppf(1 - alpha / 2), rtol=1e-6, msg=f"critical value: {m}")
            if mode == "z":
                mon.close("p-value", p, 2 * stats.norm.sf(abs(est / se)), rtol=1e-5, atol=1e-14, msg=m)
            continue
        d = df if df is not None else implied_df(q, alpha)
        if d is None:
            mon.check("interval", False, f"critical value {q} belongs to no t distribution: {m}")
            continue
        want = 2 * (stats.norm.sf(abs(est / se)) if d == np.inf else stats.t.sf(abs(est / se), d))
        mon.close("p-value", p, want, rtol=2e-4, atol=1e-9, msg=f"implied df {d}: {m}")
        if d < 1e4:
            dfs.append(d)
    if dfs:
        mon.check("interval", max(dfs) - min(dfs) <= 1e-3 * max(dfs), f"{tag} {n}: degrees of freedom differ between levels: {dfs[:6]}")
        mon.check("interval", n == "TROPResults" or all(abs(x - round(x)) < 2e-3 * x for x in dfs), f"{tag} {n}: degrees of freedom {dfs[:3]}")
    flags(mon, r, alpha, tag)
    draws(mon, r, alpha, tag)


def flags(mon, r, alpha, tag):
    n = type(r).__name__
    p = getattr(r, "p_value", getattr(r, "overall_p_value", getattr(r, "avg_p_value", None)))
    if n == "HonestDiDResults":
        sig = r.ci_lb > 0 or r.ci_ub < 0
        mon.check("flags", r.is_significant == bool(sig) and bool(r.significance_stars) == bool(sig), f"{tag}: ci [{r.ci_lb},{r.ci_ub}] flag {r.is_significant} {r.significance_stars!r}")
        if np.isfinite(r.lb) and np.isfinite(r.ub) and np.isfinite(r.ci_lb) and np.isfinite(r.ci_ub):
            mon.check("flags", r.ci_lb <= r.lb + 1e-9 * abs(r.lb) + 1e-12 and r.ci_ub >= r.ub - 1e-9 * abs(r.ub) - 1e-12, f"{tag}: interval inside the identified set")
        return
    if p is None:
        return
    want = bool(p < alpha) if p == p else False
    mon.check("flags", bool(r.is_significant) == want, f"{tag} {n}: p={p} alpha={alpha} is_significant={r.is_significant}")
    mon.check("flags", r.significance_stars == refs.stars(p), f"{tag} {n}: p={p} stars={r.significance_stars!r}")
    for e in getattr(r, "period_effects", {}).values() if n == "MultiPeriodDiDResults" else []:
        mon.check("flags", e.significance_stars == refs.stars(e.p_value) and e.is_significant == bool(e.p_value < .05), f"{tag} period {e.period}: p={e.p_value} {e.significance_stars!r} {e.is_significant}")


def draws(mon, r, alpha, tag):
    """Inference read off stored draws."""
    n = type(r).__name__
    if n in ("CallawaySantAnnaResults", "SunAbrahamResults") and r.bootstrap_results is not None:
        b = r.bootstrap_results
        mon.close("stored-draws", [r.overall_se, r.overall_p_value, *r.overall_conf_int],
                  [b.overall_att_se, b.overall_att_p_value, *b.overall_att_ci], rtol=1e-12, msg=f"{tag}: bootstrap record vs result")
        d = b.bootstrap_distribution
        if d is not None and np.all(np.isfinite(d)) and len(d) > 1:
            mon.close("stored-draws", r.overall_se, np.std(d, ddof=1), rtol=1e-7, atol=1e-12, msg=f"{tag}: SE of the draws")
            mon.close("stored-draws", list(r.overall_conf_int), list(np.percentile(d, [50 * alpha, 100 - 50 * alpha])), rtol=1e-7, atol=1e-9, msg=f"{tag}: percentile interval")
            s = np.mean(d <= 0) if r.overall_att >= 0 else np.mean(d >= 0)
            mon.close("stored-draws", r.overall_p_value, max(min(2 * s, 1), 1 / (len(d) + 1)), rtol=1e-9, atol=1e-12, msg=f"{tag}: bootstrap p-value")
        for lab, ref in (("event_study", "event_study_effects"), ("group_effect", "group_effects"), ("group_time", "group_time_effects")):
            ses, ps, cis = (getattr(b, f"{lab}_{x}", None) for x in ("ses", "p_values", "cis"))
            if ses and getattr(r, ref, None):
                for k in ses:
                    e = getattr(r, ref)[k]
                    mon.close("stored-draws", [e["se"], e["p_value"], *e["conf_int"]], [ses[k], ps[k], *cis[k]], rtol=1e-12, msg=f"{tag}: {ref}[{k}]")
    elif n == "PlaceboTestResults" and r.test_type == "permutation":
        d = np.asarray(r.permutation_distribution)
        tol = 1e-9 * (abs(r.original_effect) + np.abs(d).max())
        hi, lo = np.mean(np.abs(d) >= abs(r.original_effect) - tol), np.mean(np.abs(d) >= abs(r.original_effect) + tol)
        mon.check("stored-draws", min(hi, lo) - 1e-9 <= r.p_value <= max(hi, 1 / (len(d) + 1)) + 1e-9, f"{tag}: permutation p {r.p_value}, share [{lo},{hi}]")
        mon.close("stored-draws", r.se, np.std(d, ddof=1), rtol=1e-7, msg=f"{tag}: spread of the permutation distribution")
    elif n == "SyntheticDiDResults" and r.variance_method == "placebo" and r.placebo_effects is not None and len(r.placebo_effects):
        d = np.asarray(r.placebo_effects)
        if r.se > 0:
            mon.close("stored-draws", r.p_value, max(np.mean(np.abs(d) >= abs(r.att)), 1 / (len(d) + 1)), rtol=1e-9, msg=f"{tag}: placebo p-value")
    elif n == "TROPResults" and r.bootstrap_distribution is not None and r.variance_method == "bootstrap" and len(r.bootstrap_distribution) > 1:
        mon.close("stored-draws", r.se, np.std(r.bootstrap_distribution, ddof=1), rtol=1e-7, atol=1e-12, msg=f"{tag}: SE of the draws")


def alpha_of_case(c, r):
    return getattr(r, "alpha", c.params.get("alpha", .05))


def k_zoo(mon, rng, tier):
    kind = pick(rng, *[k for k in zoo.ZOO if k not in ("bacon", "pretrends", "ptrend")])
    c = zoo.ZOO[kind](rng, tier, noise=float(pick(rng, 1., 1., .1, 10.)))
    mon.describe(kind=kind, case=str(c))
    r = c.fit()
    if kind != "honest" and "alpha" in c.params:
        mon.check("flags", r.alpha == c.params["alpha"], f"{c}: result alpha {r.alpha}")
    audit(mon, r, alpha_of_case(c, r), str(c))


DEG = ("constant", "exact", "zero-effect-exact", "huge", "tiny", "single-treated", "single-control", "few-draws", "duplicate-cov", "integer-exact")


def k_degenerate(mon, rng, tier):
    kind = pick(rng, *[k for k in zoo.ZOO if k not in ("bacon", "pretrends", "ptrend", "honest")])
    deg = pick(rng, *DEG)
    noise = 0.0 if deg in ("exact", "zero-effect-exact", "integer-exact") else 1.0
    kw = {}
    if deg == "single-treated" and kind in ("cs", "sa"):
        kw = {"cohorts": [2], "n_periods": 5, "sizes": [1, int(rng.integers(2, 12))], "n_clusters": 3}
    if deg == "single-control" and kind in ("cs", "sa"):
        kw = {"cohorts": [2], "n_periods": 5, "sizes": [int(rng.integers(2, 12)), 1], "n_clusters": 3}
    if deg in ("single-treated", "single-control") and kind in ("cs", "sa") and maybe(rng, .3):
        kw.update(sizes=[1, 1], n_clusters=2)
    c = zoo.ZOO[kind](rng, tier, noise=noise, **kw)
    d = c.df.copy()
    y = c.cols["outcome"]
    if deg == "constant":
        d[y] = float(pick(rng, 0, 3, 1e6))
    elif deg == "huge":
        d[y] = d[y] * 1e8
    elif deg == "tiny":
        d[y] = d[y] * 1e-9
    elif deg == "integer-exact":
        t, u = c.cols.get("time"), c.cols.get("treatment", c.cols.get("group", c.cols.get("first_treat")))
        d[y] = (d[u].rank(method="dense") * 3 + d[t].rank(method="dense") * 2 + (d[u].rank(method="dense") > 1) * d[t].rank(method="dense")).astype(int)
    elif deg == "zero-effect-exact":
        t, u = c.cols.get("time"), c.cols.get("treatment", c.cols.get("group", c.cols.get("first_treat")))
        d[y] = d[u].rank(method="dense") * 3 + d[t].rank(method="dense") * 2
    elif deg == "single-treated" and "unit" in c.cols and "treatment" in c.cols:
        tr = d.loc[d[c.cols["treatment"]] == 1, "unit"].unique()
        d = d[~d["unit"].isin(tr[1:])]
    elif deg == "single-control" and "unit" in c.cols and "treatment" in c.cols:
        tr = d.loc[d[c.cols["treatment"]] == 1, "unit"].unique()
        ct = [u for u in d["unit"].unique() if u not in set(tr)]
        d = d[d["unit"].isin(set(tr)) | d["unit"].isin(ct[:1])]
    elif deg == "few-draws" and ("n_bootstrap" in c.params or "n_permutations" in c.params):
        for k in ("n_bootstrap", "n_permutations"):
            if k in c.params:
                c.params[k] = 2 if kind in ("trop", "did", "twfe") else int(pick(rng, 1, 2))
    elif deg == "duplicate-cov" and c.cols.get("covariates"):
        d["dup"] = d[c.cols["covariates"][0]] * 2
        c.cols["covariates"] = c.cols["covariates"] + ["dup"]
    c.df = d
    mon.describe(kind=kind, degeneracy=deg, case=str(c))
    try:
        r = c.fit()
    except (ValueError, RuntimeError, np.linalg.LinAlgError) as e:
        mon.state(kind, deg, "refused", type(e).__name__)
        mon.saw("refused")
        return
    audit(mon, r, alpha_of_case(c, r), f"[{deg}] {c}", degenerate=deg)


def k_pair(mon, rng, tier):
    """Groups of a single unit: the sample variance of a group is exactly zero."""
    k = int(rng.integers(1, 3))
    sizes = [int(pick(rng, 1, 1, 1, 2)) for _ in range(k + 1)]
    kind = pick(rng, "cs", "cs", "sa")
    c = zoo.ZOO[kind](rng, tier, cohorts=[2, 3][:k], n_periods=5, sizes=sizes, n_clusters=2, boot=None if maybe(rng, .3) else False)
    if "covariates" in c.cols:
        del c.cols["covariates"]
    mon.describe(kind=kind, sizes=sizes, case=str(c))
    try:
        r = c.fit()
    except (ValueError, RuntimeError, np.linalg.LinAlgError) as e:
        mon.state("pair", "refused", type(e).__name__)
        return
    audit(mon, r, alpha_of_case(c, r), f"[single units {sizes}] {c}", degenerate="pair")


def k_linear(mon, rng, tier):
    """LinearRegression inference with explicit alpha and df, and the two helpers."""
    n, k = int(rng.integers(6, 60)), int(rng.integers(1, 5))
    X = rng.normal(size=(n, k))
    y = rng.normal(size=n) * float(10.0 ** rng.integers(-5, 6))
    al = alpha_of(rng)
    cl = rng.integers(0, 5, n) if maybe(rng, .3) else None
    lr = LinearRegression(robust=maybe(rng), alpha=al, cluster_ids=cl).fit(X, y)
    df0 = n - k - 1
    for i, a, d in ((0, None, None), (int(rng.integers(k + 1)), alpha_of(rng), int(rng.integers(1, 50))), (k, alpha_of(rng), None)):
        inf = lr.get_inference(i, alpha=a, df=d)
        al_, d_ = a or al, d or df0
        m = f"LinearRegression index {i} alpha={al_} df={d_}"
        mon.check("helpers", inf.alpha == al_ and inf.df == d_, f"{m}: recorded {inf.alpha}, {inf.df}")
        refs.inference(mon, "helpers", inf.coefficient, inf.se, inf.t_stat, inf.p_value, inf.conf_int, al_, d_, m)
        mon.check("helpers", inf.is_significant() == bool(inf.p_value < al_) and inf.significance_stars() == refs.stars(inf.p_value), f"{m}: flags p={inf.p_value}")
        thr = alpha_of(rng)
        mon.check("helpers", inf.is_significant(thr) == bool(inf.p_value < thr), f"{m}: threshold {thr}")
        mon.check("helpers", bool(inf.p_value < al_) == (not inf.conf_int[0] <= 0 <= inf.conf_int[1]) or abs(inf.p_value - al_) < 1e-9, f"{m}: interval and test disagree")
    est, se, a = rng.normal() * 10, float(rng.exponential()), alpha_of(rng)
    d = pick(rng, None, int(rng.integers(1, 200)))
    ci = compute_confidence_interval(est, se, a, df=d)
    q = refs.crit(a, d)
    mon.close("helpers", list(ci), [est - q * se, est + q * se], rtol=1e-9, atol=1e-10, msg=f"interval helper alpha={a} df={d}")
    t = float(rng.normal() * 3)
    mon.close("helpers", compute_p_value(t, df=d), refs.p_two_sided(t, d), rtol=1e-9, atol=1e-14, msg="p helper")
    mon.close("helpers", compute_p_value(t, df=d, two_sided=False), refs.p_two_sided(t, d) / 2, rtol=1e-9, atol=1e-14, msg="one-sided p helper")
    mon.check("helpers", not np.isfinite(compute_p_value(np.nan, df=d)), "p of an undefined statistic")


KINDS = {"zoo": (k_zoo, 420, 6000), "degenerate": (k_degenerate, 300, 4000), "pair": (k_pair, 80, 1000), "linear": (k_linear, 60, 800)}
