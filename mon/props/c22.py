"""C22: effects move with the outcome, inference does not depend on the units of measurement."""
import re
import numpy as np
import pandas as pd

from mon import refs, zoo, gen
from mon.gen import pick, maybe, alpha_of
import diff_diff as dd

RULE = ("every estimator and diagnostic (13 families, random options) refitted after shifting the outcome (up to 1e4 of its spread), multiplying it by c (1e-9 to 1e9, either sign), doing both, negating a symmetric treatment coding and applying affine maps "
        "(slopes 1e-6 to 1e6, either sign) to every covariate; non-trivial = distinct (family, options, transformation, magnitude) state")
NOTE = ("Every numeric leaf of the result is classified by how it must move (effect: c, standard error: |c|, variance: c^2, interval: c with ends swapped for negative c, t: sign of c, p-values, counts, weights, R^2: unchanged) and compared with the "
        "untransformed fit.  Tuning constants given in outcome units (TROP penalties, SDID lambda_reg, smoothness M) are rescaled along with the outcome.")
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"scale": 180, "shift": 160, "affine": 150, "covariate": 100, "negated-coding": 60, "leaves": 400}

# leaf name -> kind of quantity (first match on the path with labels removed)
TABLE = [
    (r"^\.(original_results\.)?(coefficients|residuals)\[", "coef"),
    (r"fitted_values|factor_matrix|^\.time_effects|\.unit_effects|group_means", "level"),
    (r"\.vcov|event_study_vcov", "var"),
    (r"(conf_int\]?|_cis?|\bci)(\[\])+$|ci_lb|ci_ub|\.lb$|\.ub$|\[ci_lower\]|\[ci_upper\]", "ci"),
    (r"(\.|_|\[)ses?\]?(\[\])?$|se_difference", "se"),
    (r"\.test_statistic$", "same"),
    (r"t_stat(istic)?\]?$", "t"),
    (r"p_values?\]?(\[\])?$", "same"),
    (r"bootstrap_distribution|placebo_effects\[|permutation_distribution|leave_one_out_effects|treatment_effects\[|treated_changes|control_changes|pre_period_effects\[", "eff"),
    (r"(\.|_|\[)(att|effect|estimate|mean_difference|trend_difference|treated_trend|control_trend)\]?$|weighted_avg_|twfe_estimate|original_effect", "eff"),
    (r"mdv|violation_magnitude|wasserstein_distance|equivalence_margin|pre_treatment_fit", "abs"),
    (r"decomposition_error", "err"),
    (r"loocv_score", "var"),
    (r"\.(M|lambda_\w+|period|df|alpha|n_\w+|r_squared|critical_value|power|target_power|noncentrality|test_statistic|total_weight_\w+|weight|effective_rank|fake_period)$|n_groups|weights\[|cohort_weights|violation_weights|pscore|degrees_of|ks_|variance_ratio|\.groups|"
     r"time_periods|post_periods|pre_periods|fake_group|timing_groups|comparisons|\[weight\]|\[n_\w+\]|\[group\]|n_bootstrap|n_permutations|alpha$|lower_t|upper_t|\[equivalent\]", "same"),
    (r"wasserstein_normalized", "same"),
]


def classify(path):
    p = re.sub(r"\[(#?\d+|[-\d.]+|\([^\]]*\)|u\d+|Q\d+)\]", "[]", path)
    for rx, k in TABLE:
        if re.search(rx, p):
            return k
    return None


def flatten(r):
    f = zoo.flat(r)
    return {k: v for k, v in f.items() if isinstance(v, float)}


def swap(k):
    """The path of the other end of an interval."""
    for a, b in (("[#0]", "[#1]"), ("[#1]", "[#0]")):
        if k.endswith(a):
            return k[:-4] + b
    for a, b in ((".lb", ".ub"), (".ub", ".lb"), ("ci_lb", "ci_ub"), ("ci_ub", "ci_lb"), ("ci_lower", "ci_upper"), ("ci_upper", "ci_lower")):
        if k.endswith(a):
            return k[:-len(a)] + b
    return k


def moved(mon, name, a, b, c, sh, s, tag, rtol, noise=0.0, skip=(), names=None):
    """b must be a after y -> c*y + sh.  s: outcome spread in the units of a."""
    bad = []
    n = 0
    skip = tuple(skip)
    keys = sorted(set(a) ^ set(b))
    bad += [(k, a.get(k, "absent"), b.get(k, "absent")) for k in keys if not any(w in k for w in skip)]
    sg = 1.0 if c > 0 else -1.0
    rel = rtol + noise
    for k in sorted(set(a) & set(b)):
        if any(w in k for w in skip):
            continue
        kind = classify(k)
        if kind is None:
            mon.saw("unclassified")
            continue
        x = a[k]
        if kind in ("coef", "level"):
            last = k[k.rindex("[") + 1:-1] if k.endswith("]") else ""
            if kind == "level" or last in ("const", "Intercept", "intercept"):
                if sh:
                    continue
                kind = "eff"
            else:
                kind = "eff"
        if kind == "ci" and c < 0:
            x = a.get(swap(k), np.nan)
        if c < 0 and re.search(r"\[(lower|upper)_", k):                # one-sided tests exchange roles
            x = a[k.replace("upper_", "\0").replace("lower_", "upper_").replace("\0", "lower_")]
        y = b[k]
        if kind in ("eff", "ci"):
            want, tol = c * x, abs(c) * (rel * abs(x) + (1e-8 + noise) * s)
        elif kind in ("se", "abs"):
            want, tol = abs(c) * x, abs(c) * (rel * abs(x) + (1e-8 + noise) * s)
        elif kind == "var":
            want, tol = c * c * x, c * c * (rel * abs(x) + (1e-8 + noise) * s * s)
        elif kind == "t":
            want, tol = sg * x, rel * abs(x) * 3 + 1e-6 + noise
        elif kind == "err":
            want, tol = 0.0 if abs(x) < 1e-9 * s else abs(c) * x, abs(c) * (1e-6 * abs(x) + (1e-8 + noise) * s)
        else:
            want, tol = x, 1e-6 * abs(x) + 1e-6 + noise
        n += 1
        if not (y == want or (y != y and want != want) or abs(y - want) <= tol):
            bad.append((k, kind, want, y))
    mon.check(name, not bad, f"{tag}: {[(q[0],) + tuple(q[1:]) for q in bad[:4]]} ({len(bad)} of {n})")
    mon.check("leaves", n >= 5, f"{tag}: only {n} leaves compared")


def rescaled(c_case, kind, c):
    """Tuning constants that are stated in outcome units follow the outcome."""
    p = dict(c_case.params)
    if kind == "sdid":
        p["lambda_reg"] = p["lambda_reg"] * c * c
    if kind == "trop":
        p["lambda_nn_grid"] = [x * abs(c) for x in p["lambda_nn_grid"]]
        p["lambda_unit_grid"] = [x / abs(c) for x in p["lambda_unit_grid"]]
    return c_case.with_(params=p)


def sd(df, y):
    return float(df[y].std()) + 1e-300


def k_affine(mon, rng, tier):
    kind = pick(rng, *[k for k in zoo.ZOO if k != "trop"], "trop")
    c = zoo.ZOO[kind](rng, tier, level=float(pick(rng, 0, 10, 1000)))
    if kind == "honest":
        return honest(mon, rng, c)
    y = c.cols["outcome"]
    tag = f"{str(c)[:330]}"
    mon.describe(kind=kind, case=tag)
    a = flatten(c.fit())
    s = sd(c.df, y)
    skip = {"trop": ("unit_effects", "time_effects", "factor_matrix", "lambda_", "effective_rank"), "sdid": ("lambda_reg",)}.get(kind, ())
    rtol = {"trop": 2e-4, "pretrends": 1e-4, "sdid": 1e-5}.get(kind, 1e-6)

    def run(name, k, sh):
        d = rescaled(c, kind, k).with_(df=c.df.assign(**{y: c.df[y] * k + sh}))
        b = flatten(d.fit())
        lv = abs(sh / k) / s + abs(c.df[y]).max() / s
        moved(mon, name, a, b, k, sh, s, f"{tag} y -> {k}*y + {sh}", rtol, noise=3e-13 * lv * 1e2, skip=skip)
        mon.state(kind + c.tag[:10], name, int(np.round(np.log10(abs(k)))), k < 0)

    for name in [("scale", "shift", "affine")[i] for i in rng.choice(3, 2, replace=False)]:
        k = float(pick(rng, 1e-9, 1e-6, 1e-3, .37, 2.5, 1e3, 1e6, 1e9)) * (-1 if maybe(rng, .3) else 1) if name != "shift" else 1.0
        sh = 0.0 if name == "scale" else float(pick(rng, -1, 1)) * s * abs(k) * float(pick(rng, .5, 10, 1e3, 1e4))
        run(name, k, sh)


def honest(mon, rng, c):
    """The chain is rebuilt so that the smoothness bound follows the outcome."""
    y = c.cols["outcome"]
    s = sd(c.df, y)
    m = pick(rng, "smoothness", "relative_magnitude")
    M = float(pick(rng, 0, .3, 1.0))
    al = alpha_of(rng)
    k = float(pick(rng, 1e-6, 1e-3, 2.5, 1e3, 1e6)) * (-1 if maybe(rng, .3) else 1)
    sh = float(pick(rng, 0, 0, 10, 1e3)) * s * abs(k)

    def f(k, sh):
        d = c.with_(df=c.df.assign(**{y: c.df[y] * k + sh}), chain=lambda r: dd.HonestDiD(method=m, M=M * (abs(k) * s if m == "smoothness" else 1), alpha=al).fit(r))
        return flatten(d.fit())
    mon.describe(kind="honest", case=str(c)[:300], M=M, method=m, k=k, sh=sh)
    moved(mon, "affine" if sh else "scale", f(1, 0), f(k, sh), k, sh, s, f"honest {m} M={M} {str(c)[:250]} y -> {k}*y + {sh}", 1e-5, noise=3e-11 * (abs(sh / k) / s + abs(c.df[y]).max() / s), skip=(".M",))
    mon.state("honest", m, int(np.round(np.log10(abs(k)))), k < 0)


def k_covariate(mon, rng, tier):
    kind = pick(rng, "did", "mp", "twfe", "cs", "cs", "ddd", "ddd", "sdid", "sa")
    for _ in range(40):
        c = zoo.ZOO[kind](rng, tier, **({"tv_covs": 1} if kind == "sa" else {}))
        if kind == "sa" and "z1" in c.df:
            c.cols["covariates"] = ["z1"]
        if c.cols.get("covariates") and "formula" not in c.tag:
            break
    else:
        return
    cov = c.cols["covariates"]
    m = {x: (float(pick(rng, 1e-6, 1e-3, .5, 4, 1e3, 1e6)) * (-1 if maybe(rng, .3) else 1), float(pick(rng, 0, -1, 1)) * float(pick(rng, 1, 100, 1e3))) for x in cov if maybe(rng, .8)}
    if not m:
        return
    # shifts are in units of the covariate's spread
    d = c.df.assign(**{x: k * (c.df[x] + sh * c.df[x].std()) for x, (k, sh) in m.items()})
    tag = f"{str(c)[:330]} covariates -> {m}"
    mon.describe(kind=kind, case=tag)
    a, b = flatten(c.fit()), flatten(c.with_(df=d).fit())
    drop = [f"[{x}]" for x in cov] + ["[const]", "[Intercept]", "intercept", ".vcov"]
    lv = max(abs(sh) for k, sh in m.values()) + 1
    moved(mon, "covariate", a, b, 1.0, 0.0, sd(c.df, c.cols["outcome"]), tag, 2e-6, noise=1e-10 * lv, skip=drop)
    mon.state(kind, "covariate", len(cov), tuple(int(np.log10(abs(k))) for k, sh in m.values())[:1], c.params.get("estimation_method"))


def k_negate(mon, rng, tier):
    kind = pick(rng, "did", "mp", "ddd", "twfe", "bacon")
    if kind == "bacon":
        kind = "ptrend"
    c = zoo.ZOO[kind](rng, tier)
    if kind == "ptrend" and c.tag != ":simple":
        c = zoo.ptrend(rng, tier, which="simple")
    if kind == "twfe" and c.cols["time"] == "time":
        c = c.with_(cols={**c.cols, "time": "post", "treatment": "ever"})
    role = pick(rng, *{"did": ("treatment", "time"), "mp": ("treatment",), "ddd": ("group", "partition", "time"), "twfe": ("treatment",), "ptrend": ("treatment",)}[kind])
    if kind == "ddd" and c.params["estimation_method"] != "reg" and c.cols.get("covariates"):
        c = c.with_(cols={**c.cols, "covariates": None})            # weighting targets one cell: no symmetry with covariates
    if kind == "ddd" and c.cols.get("covariates"):
        c = c.with_(cols={**c.cols, "covariates": None})
    col = c.cols[role]
    tag = f"{str(c)[:330]} {role} -> 1 - {role}"
    mon.describe(kind=kind, case=tag)
    a, b = c.fit(), c.with_(df=c.df.assign(**{col: 1 - c.df[col]})).fit()
    s = sd(c.df, c.cols["outcome"])
    if kind == "ptrend":
        get = lambda r: ([r["trend_difference"]], [r["trend_difference_se"]], [r["p_value"]], [r["t_statistic"]])
    elif kind == "mp":
        get = lambda r: ([e.effect for e in r.period_effects.values()] + [r.avg_att], [e.se for e in r.period_effects.values()] + [r.avg_se], [e.p_value for e in r.period_effects.values()] + [r.avg_p_value],
                         [e.t_stat for e in r.period_effects.values()] + [r.avg_t_stat])
    else:
        get = lambda r: ([r.att], [r.se], [r.p_value], [r.t_stat])
    (e1, s1, p1, t1), (e2, s2, p2, t2) = get(a), get(b)
    mon.close("negated-coding", e2, [-x for x in e1], rtol=1e-6, atol=1e-8 * s, msg=f"{tag}: effects")
    if c.params.get("inference") != "wild_bootstrap":
        mon.close("negated-coding", s2, s1, rtol=1e-6, atol=1e-8 * s, msg=f"{tag}: standard errors")
        mon.close("negated-coding", p2, p1, rtol=1e-5, atol=1e-7, msg=f"{tag}: p-values")
        mon.close("negated-coding", t2, [-x for x in t1], rtol=1e-5, atol=1e-7, msg=f"{tag}: t")
    mon.state(kind, "negated", role, c.params.get("estimation_method"))


KINDS = {"affine": (k_affine, 420, 5000), "covariate": (k_covariate, 140, 1800), "negate": (k_negate, 120, 1200)}
