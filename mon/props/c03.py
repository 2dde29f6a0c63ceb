"""C03: summaries, dictionaries, frames and plots show the numbers of the result."""
import re
import numpy as np
import pandas as pd
from scipy import stats
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.container import ErrorbarContainer
from matplotlib.collections import LineCollection, PathCollection, PolyCollection

from mon import refs, zoo, gen
from mon.gen import pick, maybe, alpha_of
from mon.props.c02 import implied_df
import diff_diff as dd
from diff_diff import visualization as viz
from diff_diff.utils import wild_bootstrap_se

RULE = ("every result type of the library (with string, date and integer period labels, any alpha, outcomes scaled over 10 orders of magnitude) through summary(), summary(alpha), repr, to_dict, to_dataframe at every level, "
        "the weight and effect frames and every plot; non-trivial = distinct (result type, view, options) state")
NOTE = ("Summaries are read back as numbers and compared with the result within the displayed digits, table rows are matched one to one and in order, frames and dictionaries must equal the attributes exactly, "
        "plotted points, bars and lines are read back from the matplotlib artists; the result is fingerprinted before and after.")
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"summary": 3000, "table": 400, "dict": 1500, "frame": 1500, "level": 250, "plot": 800, "unchanged": 350, "repr": 300}

NUM = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?%?|nan|inf)"


def ok_num(tok, val):
    """A printed token shows val within its own digits."""
    tok = tok.strip("%,[]()")
    if tok in ("nan", "+nan", "-nan"):
        return val is not None and not np.isfinite(val) and val != val
    if tok in ("inf", "+inf", "-inf"):
        return val == float(tok)
    try:
        x = float(tok)
    except ValueError:
        return False
    if val is None or not np.isfinite(val):
        return False
    dec = len(tok.split(".")[1]) if "." in tok else 0
    return abs(x - float(val)) <= .5000001 * 10 ** -dec + 1e-12 * abs(val)


def lines_of(r, *a):
    return r.summary(*a).split("\n")


def kv(mon, L, label, vals, tag, scale=1.0, times=1):
    """Lines 'label  v1 v2 ...'."""
    hit = [x.strip()[len(label):] for x in L if x.strip().startswith(label)]
    if not mon.check("summary", len(hit) >= 1, f"{tag}: no line {label!r}"):
        return
    vals = list(np.atleast_1d(np.asarray(vals, dtype=object)))
    for h in hit[:times]:
        if vals and isinstance(vals[0], str):
            mon.check("summary", vals[0] in h, f"{tag}: line {label!r} shows {h!r}, expected {vals[0]!r}")
            continue
        toks = re.findall(NUM, h)
        mon.check("summary", len(toks) == len(vals) and all(ok_num(t, None if v is None else v * (100 if "%" in t else scale)) for t, v in zip(toks, vals)),
                  f"{tag}: line {label!r} shows {toks}, result has {vals}")


def block(L, head):
    """Rows between the rule under a header line and the next rule."""
    i = next((k for k, x in enumerate(L) if x.startswith(head)), None)
    if i is None:
        return None
    out = []
    for x in L[i + 2:]:
        if x.startswith("---") or x.startswith("===") or not x.strip():
            break
        out.append(x)
    return out


def rows(mon, got, want, tag):
    """got: text rows; want: [(label, [numbers], stars or None)] in order."""
    if not mon.check("table", got is not None and len(got) == len(want), f"{tag}: {None if got is None else len(got)} rows shown, {len(want)} expected"):
        return
    for g, (lab, vals, stars) in zip(got, want):
        g = g.strip()
        if not mon.check("table", g.startswith(str(lab)), f"{tag}: row {g!r}, expected label {lab!r}"):
            continue
        toks = g[len(str(lab)):].split()
        nums = [t for t in toks if re.fullmatch(NUM, t)]
        st = [t for t in toks if not re.fullmatch(NUM, t)]
        mon.check("table", len(nums) == len(vals) and all(ok_num(a, b) for a, b in zip(nums, vals)), f"{tag}: row {lab!r} shows {nums}, result has {vals}")
        if stars is not None:
            mon.check("table", "".join(st) == stars, f"{tag}: row {lab!r} stars {st}, expected {stars!r}")


def eff(e):
    return [e["effect"], e["se"], e["t_stat"], e["p_value"]]


def level(mon, r, L, est, se, ci, alpha_fit, asked, tag, symmetric):
    """The interval line and its stated level."""
    m = [re.search(r"([\d.]+)% (?:Confidence Interval|CI|Robust CI):?\s*\[(\S+), (\S+)\]", x) for x in L]
    m = [x for x in m if x]
    if not mon.check("level", len(m) == 1, f"{tag}: {len(m)} interval lines"):
        return
    lev, lo, hi = m[0].groups()
    lev = float(lev)
    fit = 100 * (1 - alpha_fit)
    if abs(lev - fit) < 1e-4:
        mon.check("level", ok_num(lo, ci[0]) and ok_num(hi, ci[1]), f"{tag}: {lev}% interval shown [{lo},{hi}], fitted {ci}")
        return
    if not mon.check("level", asked is not None and abs(lev - 100 * (1 - asked)) < 1e-4, f"{tag}: stated level {lev}%, fitted at {fit}%, asked for {asked}"):
        return
    mon.saw("level-recomputed")
    if not symmetric or not np.isfinite(se) or se == 0 or not np.isfinite(ci[0]):
        mon.check("level", symmetric, f"{tag}: {lev}% interval [{lo},{hi}] but the fitted one {ci} is at {fit}%")
        return
    d = implied_df((ci[1] - ci[0]) / 2 / se, alpha_fit)
    if d is None or abs(est) > 1e8 * se:
        return
    q = refs.crit(asked, None if d == np.inf else d)
    for tok, v in ((lo, est - q * se), (hi, est + q * se)):
        dec = len(tok.split(".")[1]) if "." in tok else 0
        mon.check("level", abs(float(tok) - v) <= .5000001 * 10 ** -dec + 1e-3 * q * se * (1 if d < 1e5 else 1e-3), f"{tag}: {lev}% bound {tok}, expected {v} (implied df {d})")


def attrs(mon, r, d, tag, alias):
    """Every entry of an exported dictionary equals the attribute it names."""
    for k, v in d.items():
        want = alias[k]() if k in alias else getattr(r, k, "missing")
        if isinstance(want, str) and want == "missing":
            mon.check("dict", False, f"{tag}: entry {k!r} names no attribute")
            continue
        mon.check("dict", eq(v, want), f"{tag}: entry {k!r} is {v!r}, result has {want!r}")


def eq(a, b):
    if a is None or b is None or isinstance(a, (str, bool, np.bool_)) or isinstance(b, str):
        return a is b or a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b or str(a) == str(b)
    return fa == fb or (fa != fa and fb != fb)


def frame(mon, f, want, tag, order=True):
    """A frame has exactly the wanted rows ({column: value})."""
    if not mon.check("frame", len(f) == len(want), f"{tag}: {len(f)} rows, expected {len(want)}"):
        return
    for (_, row), w in zip(f.iterrows(), want):
        bad = {k: (row.get(k, "missing"), v) for k, v in w.items() if k not in row or not eq(row[k], v)}
        mon.check("frame", not bad, f"{tag}: {bad}")


def inf_row(lab, e):
    return {**lab, "effect": e["effect"], "se": e["se"], "t_stat": e["t_stat"], "p_value": e["p_value"],
            "conf_int_lower": e["conf_int"][0], "conf_int_upper": e["conf_int"][1]}


def one_row(mon, r, tag):
    d, f = r.to_dict(), r.to_dataframe()
    mon.check("frame", len(f) == 1 and all(eq(f.iloc[0][k], v) or (v is None and pd.isna(f.iloc[0][k])) for k, v in d.items()) and set(f.columns) == set(d),
              f"{tag}: frame differs from dictionary")
    return d


def repr_has(mon, r, vals, tag):
    s = repr(r)
    nums = re.findall(r"=\s*\[?(" + NUM + ")", s)
    for v in vals:
        mon.check("repr", any(ok_num(t, v) for t in re.findall(NUM, s)), f"{tag}: repr {s!r} does not show {v}")


STAR = refs.stars


def views(mon, r, tag, alpha_req=None):
    n = type(r).__name__
    L = lines_of(r)
    mon.state(n, "views", alpha_req is not None)
    if n in ("DiDResults", "SyntheticDiDResults", "TripleDifferenceResults", "TROPResults"):
        rows(mon, block(L, "Parameter"), [("ATT", [r.att, r.se, r.t_stat, r.p_value], STAR(r.p_value))], f"{tag} summary")
        sym = not (n == "DiDResults" and r.inference_method != "analytical")
        level(mon, r, L, r.att, r.se, r.conf_int, r.alpha, None, f"{tag} summary", sym)
        if alpha_req:
            level(mon, r, lines_of(r, alpha_req), r.att, r.se, r.conf_int, r.alpha, alpha_req, f"{tag} summary({alpha_req})", sym)
        kv(mon, L, "Observations:" if n != "TripleDifferenceResults" else "Total observations:", [r.n_obs], tag)
        if n in ("DiDResults", "SyntheticDiDResults", "TROPResults"):
            kv(mon, L, "Treated units:", [r.n_treated], tag)
            kv(mon, L, "Control units:", [r.n_control], tag)
        if n in ("DiDResults", "TripleDifferenceResults") and r.r_squared is not None:
            kv(mon, L, "R-squared:", [r.r_squared], tag)
        if n == "DiDResults" and r.inference_method != "analytical":
            kv(mon, L, "Bootstrap replications:", [r.n_bootstrap], tag)
            kv(mon, L, "Number of clusters:", [r.n_clusters], tag)
            kv(mon, L, "Inference method:", r.inference_method, tag)
        alias = {"conf_int_lower": lambda: r.conf_int[0], "conf_int_upper": lambda: r.conf_int[1]}
        need = {"att", "se", "t_stat", "p_value", "conf_int_lower", "conf_int_upper", "n_obs"}
        if n == "SyntheticDiDResults":
            alias.update(n_pre_periods=lambda: len(r.pre_periods), n_post_periods=lambda: len(r.post_periods))
            kv(mon, L, "Pre-treatment periods:", [len(r.pre_periods)], tag)
            kv(mon, L, "Post-treatment periods:", [len(r.post_periods)], tag)
            kv(mon, L, "Regularization (lambda):", [r.lambda_reg], tag)
            kv(mon, L, "Variance method:", r.variance_method, tag)
            if r.pre_treatment_fit is not None:
                kv(mon, L, "Pre-treatment fit (RMSE):", [r.pre_treatment_fit], tag)
            top = sorted(r.unit_weights.items(), key=lambda x: -x[1])
            shown = [re.match(r"\s+Unit (.*): ([\d.]+)$", x) for x in L]
            shown = [m.groups() for m in shown if m]
            want = [(u, w) for u, w in top[:5] if w > .001]
            mon.check("table", len(shown) == len(want) and all(ok_num(a[1], r_w) for a, (_, r_w) in zip(shown, want))
                      and all(ok_num(w, {str(u): x for u, x in r.unit_weights.items()}.get(u, np.nan)) for u, w in shown), f"{tag}: top weights {shown}, expected {want}")
            kv(mon, [x.strip().lstrip("(") for x in L if "with weight >" in x], "", [sum(w > .001 for w in r.unit_weights.values()), .001], tag)
            w = r.get_unit_weights_df()
            mon.check("frame", dict(zip(w["unit"], w["weight"])) == r.unit_weights and len(w) == len(r.unit_weights) and w["weight"].is_monotonic_decreasing, f"{tag}: unit-weight frame")
            w = r.get_time_weights_df()
            mon.check("frame", dict(zip(w["period"], w["weight"])) == r.time_weights and len(w) == len(r.time_weights), f"{tag}: time-weight frame")
        if n == "TROPResults":
            for lab, a in (("Treated observations:", "n_treated_obs"), ("Pre-treatment periods:", "n_pre_periods"), ("Post-treatment periods:", "n_post_periods"),
                           ("Lambda (time decay):", "lambda_time"), ("Lambda (unit distance):", "lambda_unit"), ("Lambda (nuclear norm):", "lambda_nn"),
                           ("Effective rank:", "effective_rank"), ("LOOCV score:", "loocv_score")):
                kv(mon, L, lab, [getattr(r, a)], tag)
            f = r.get_treatment_effects_df()
            frame(mon, f, [{"unit": u, "time": t, "effect": e} for (u, t), e in r.treatment_effects.items()], f"{tag} effects frame")
            frame(mon, r.get_unit_effects_df(), [{"unit": u, "effect": e} for u, e in r.unit_effects.items()], f"{tag} unit frame")
            frame(mon, r.get_time_effects_df(), [{"time": u, "effect": e} for u, e in r.time_effects.items()], f"{tag} time frame")
        if n == "TripleDifferenceResults":
            for lab, a in (("Treated group, Eligible:", "n_treated_eligible"), ("Treated group, Ineligible:", "n_treated_ineligible"),
                           ("Control group, Eligible:", "n_control_eligible"), ("Control group, Ineligible:", "n_control_ineligible")):
                kv(mon, L, lab, [getattr(r, a)], tag)
            for c, v in (r.group_means or {}).items():
                kv(mon, L, c, [v], tag)
            for c, v in (r.pscore_stats or {}).items():
                kv(mon, L, c, [v], tag)
        d = one_row(mon, r, tag)
        mon.check("dict", need <= set(d), f"{tag}: missing entries {need - set(d)}")
        attrs(mon, r, d, tag, alias)
        repr_has(mon, r, [r.att, r.se, r.p_value], tag)
    elif n == "MultiPeriodDiDResults":
        rows(mon, block(L, "Period "), [(p, [e.effect, e.se, e.t_stat, e.p_value], STAR(e.p_value)) for p, e in r.period_effects.items()], f"{tag} period table")
        rows(mon, block(L, "Parameter"), [("Avg ATT", [r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value], STAR(r.avg_p_value))], f"{tag} average")
        level(mon, r, L, r.avg_att, r.avg_se, r.avg_conf_int, r.alpha, None, tag, True)
        if alpha_req:
            level(mon, r, lines_of(r, alpha_req), r.avg_att, r.avg_se, r.avg_conf_int, r.alpha, alpha_req, f"{tag} summary({alpha_req})", True)
        kv(mon, L, "Observations:", [r.n_obs], tag)
        kv(mon, L, "Treated observations:", [r.n_treated], tag)
        kv(mon, L, "Control observations:", [r.n_control], tag)
        kv(mon, L, "Pre-treatment periods:", [len(r.pre_periods)], tag)
        kv(mon, L, "Post-treatment periods:", [len(r.post_periods)], tag)
        d = r.to_dict()
        alias = {"avg_conf_int_lower": lambda: r.avg_conf_int[0], "avg_conf_int_upper": lambda: r.avg_conf_int[1],
                 "n_pre_periods": lambda: len(r.pre_periods), "n_post_periods": lambda: len(r.post_periods)}
        for p, e in r.period_effects.items():
            for pre, a in (("effect", e.effect), ("se", e.se), ("pval", e.p_value)):
                alias[f"{pre}_period_{p}"] = (lambda x: lambda: x)(a)
                mon.check("dict", f"{pre}_period_{p}" in d, f"{tag}: dictionary lacks {pre} of period {p}")
        attrs(mon, r, d, tag, alias)
        frame(mon, r.to_dataframe(), [{**inf_row({"period": p}, vars(e)), "is_significant": e.is_significant} for p, e in r.period_effects.items()], f"{tag} frame")
        for p in r.period_effects:
            mon.check("frame", r.get_effect(p) is r.period_effects[p], f"{tag}: get_effect({p})")
        mon.raises("frame", (KeyError,), lambda: r.get_effect("no such period"), f"{tag}: get_effect of an unknown period")
        repr_has(mon, r, [r.avg_att, r.avg_se], tag)
        for p, e in list(r.period_effects.items())[:2]:
            repr_has(mon, e, [e.effect, e.se, e.p_value], f"{tag} {p}")
    elif n in ("CallawaySantAnnaResults", "SunAbrahamResults"):
        rows(mon, block(L, "Parameter"), [("ATT", [r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value], STAR(r.overall_p_value))], f"{tag} overall")
        sym = r.bootstrap_results is None
        level(mon, r, L, r.overall_att, r.overall_se, r.overall_conf_int, r.alpha, None, tag, sym)
        if alpha_req:
            level(mon, r, lines_of(r, alpha_req), r.overall_att, r.overall_se, r.overall_conf_int, r.alpha, alpha_req, f"{tag} summary({alpha_req})", sym)
        kv(mon, L, "Total observations:", [r.n_obs], tag)
        kv(mon, L, "Treated units:", [r.n_treated_units], tag)
        kv(mon, L, "Control units:", [r.n_control_units], tag)
        kv(mon, L, "Treatment cohorts:", [len(r.groups)], tag)
        kv(mon, L, "Time periods:", [len(r.time_periods)], tag)
        kv(mon, L, "Control group:", r.control_group, tag)
        es = r.event_study_effects
        if es:
            rows(mon, block(L, "Rel. Period"), [(e, eff(es[e]), STAR(es[e]["p_value"])) for e in sorted(es)], f"{tag} event-study table")
            frame(mon, r.to_dataframe("event_study"), [inf_row({"relative_period": e}, es[e]) for e in sorted(es)], f"{tag} event-study frame")
        else:
            mon.check("table", block(L, "Rel. Period") is None, f"{tag}: event-study table without effects")
        if n == "CallawaySantAnnaResults":
            ge = r.group_effects
            if ge:
                rows(mon, block(L, "Cohort"), [(g, eff(ge[g]), STAR(ge[g]["p_value"])) for g in sorted(ge)], f"{tag} cohort table")
                frame(mon, r.to_dataframe("group"), [inf_row({"group": g}, ge[g]) for g in sorted(ge)], f"{tag} cohort frame")
            frame(mon, r.to_dataframe(), [inf_row({"group": g, "time": t}, e) for (g, t), e in r.group_time_effects.items()], f"{tag} group-time frame")
            for lev, have in (("event_study", es), ("group", ge)):
                if have is None:
                    mon.raises("frame", (ValueError,), lambda lev=lev: r.to_dataframe(lev), f"{tag}: frame of effects not computed")
        else:
            frame(mon, r.to_dataframe("cohort"), [{"cohort": g, "relative_period": e, "effect": v["effect"], "se": v["se"], "weight": v["weight"]}
                                                  for (g, e), v in sorted(r.cohort_effects.items())], f"{tag} cohort frame")
        mon.raises("frame", (ValueError,), lambda: r.to_dataframe("nonsense"), f"{tag}: unknown level")
        repr_has(mon, r, [r.overall_att, r.overall_se], tag)
    elif n == "BaconDecompositionResults":
        cs = r.comparisons
        kv(mon, L, "Total observations:", [r.n_obs], tag)
        kv(mon, L, "Treatment timing groups:", [r.n_timing_groups], tag)
        kv(mon, L, "Never-treated units:", [r.n_never_treated], tag)
        kv(mon, L, "TWFE Estimate:", [r.twfe_estimate], tag)
        kv(mon, L, "Decomposition Error:", [r.decomposition_error], tag)
        tot = sum(c.weight * c.estimate for c in cs)
        kv(mon, L, "Weighted Sum of 2x2 Estimates:", [tot], tag)
        want = []
        for lab, ct in (("Treated vs Never-treated", "treated_vs_never"), ("Earlier vs Later treated", "earlier_vs_later"), ("Later vs Earlier (forbidden)", "later_vs_earlier")):
            w = sum(c.weight for c in cs if c.comparison_type == ct)
            s = sum(c.weight * c.estimate for c in cs if c.comparison_type == ct)
            mon.close("frame", r.weight_by_type()[ct], w, rtol=1e-9, atol=1e-12, msg=f"{tag}: weight of {ct}")
            if w > 0:
                want.append((lab, [w, s / w, s], None))
                mon.close("frame", r.effect_by_type()[ct], s / w, rtol=1e-9, atol=1e-9, msg=f"{tag}: effect of {ct}")
        rows(mon, block(L, "Comparison Type"), want, f"{tag} type table")
        kv(mon, [x for x in L if x.startswith("Total ") and "obs" not in x and "2x2" not in x], "Total", [sum(c.weight for c in cs), tot], tag)
        fw = r.weight_by_type()["later_vs_earlier"]
        warn = [x for x in L if x.startswith("WARNING")]
        mon.check("summary", bool(warn) == (fw > .01) and (not warn or ok_num(re.findall(r"([\d.]+)%", warn[0])[0], 100 * fw)), f"{tag}: {warn} with forbidden weight {fw}")
        frame(mon, r.to_dataframe(), [{"treated_group": c.treated_group, "control_group": c.control_group, "comparison_type": c.comparison_type, "estimate": c.estimate,
                                       "weight": c.weight, "n_treated": c.n_treated, "n_control": c.n_control, "time_start": c.time_window[0], "time_end": c.time_window[1]} for c in cs], f"{tag} frame")
        repr_has(mon, r, [r.twfe_estimate, len(cs)], tag)
        repr_has(mon, cs[0], [cs[0].estimate, cs[0].weight], tag)
    elif n == "HonestDiDResults":
        level(mon, r, L, np.nan, np.nan, (r.ci_lb, r.ci_ub), r.alpha, None, tag, False)
        kv(mon, L, "Restriction parameter (M):", [r.M], tag)
        kv(mon, L, "Point estimate:", [r.original_estimate], tag)
        kv(mon, L, "Standard error:", [r.original_se], tag)
        kv(mon, L, "Identified set:", [r.lb, r.ub], tag)
        sig = r.ci_lb > 0 or r.ci_ub < 0
        kv(mon, L, "Effect robust to violations:", "Yes" if sig else "No", tag)
        txt = " ".join(L)
        mon.check("summary", ("remains POSITIVE" in txt) == bool(r.ci_lb > 0) and ("remains NEGATIVE" in txt) == bool(not r.ci_lb > 0 and r.ci_ub < 0) and ("Cannot rule out zero" in txt) == (not sig),
                  f"{tag}: interpretation of [{r.ci_lb},{r.ci_ub}]")
        attrs(mon, r, one_row(mon, r, tag), tag, {"identified_set_width": lambda: r.ub - r.lb, "ci_width": lambda: r.ci_ub - r.ci_lb, "is_significant": lambda: bool(sig)})
        repr_has(mon, r, [r.lb, r.ub, r.M], tag)
    elif n == "SensitivityResults":
        rows(mon, block(L, "M  "), [(f"{M:.4f}", [*b, *c], None) for M, b, c in zip(r.M_values, r.bounds, r.robust_cis)], f"{tag} table")
        kv(mon, L, "Original estimate:", [r.original_estimate], tag)
        kv(mon, L, "Original SE:", [r.original_se], tag)
        kv(mon, L, "M values tested:", [len(r.M_values)], tag)
        kv(mon, L, "Breakdown value:", "None" if r.breakdown_M is None else f"{r.breakdown_M:.4f}", tag)
        frame(mon, r.to_dataframe(), [{"M": M, "lb": b[0], "ub": b[1], "ci_lb": c[0], "ci_ub": c[1], "is_significant": bool(c[0] > 0 or c[1] < 0)}
                                      for M, b, c in zip(r.M_values, r.bounds, r.robust_cis)], f"{tag} frame")
        mon.check("repr", (f"{r.breakdown_M:.4f}" if r.breakdown_M is not None else "None") in repr(r), f"{tag}: {r!r}, breakdown {r.breakdown_M}")
    elif n == "PreTrendsPowerResults":
        for lab, v in (("Number of pre-periods:", r.n_pre_periods), ("Significance level (alpha):", r.alpha), ("Target power:", r.target_power), ("Violation magnitude (M):", r.violation_magnitude),
                       ("Power to detect this violation:", r.power), ("Minimum detectable violation:", r.mdv), ("Test statistic (expected):", r.test_statistic),
                       ("Critical value:", r.critical_value), ("Non-centrality parameter:", r.noncentrality), ("Minimum detectable violation (MDV):", r.mdv)):
            kv(mon, L, lab, [v], tag)
        kv(mon, L, "Violation type:", r.violation_type, tag)
        attrs(mon, r, one_row(mon, r, tag), tag, {})
        repr_has(mon, r, [r.power, r.mdv], tag)
    elif n == "PlaceboTestResults":
        for lab, v in (("Placebo effect:", r.placebo_effect), ("Standard error:", r.se), ("T-statistic:", r.t_stat), ("P-value:", r.p_value), ("Observations:", r.n_obs)):
            kv(mon, L, lab, [v], tag)
        level(mon, r, L, r.placebo_effect, r.se, r.conf_int, r.alpha, None, tag, False)
        if r.original_effect is not None:
            kv(mon, L, "Original ATT:", [r.original_effect], tag)
            if r.original_se is not None:
                kv(mon, L, "Original SE:", [r.original_se], tag)
        if r.n_permutations is not None:
            kv(mon, L, "Number of permutations:", [r.n_permutations], tag)
        if r.fake_period is not None:
            kv(mon, L, "Fake treatment period:", str(r.fake_period), tag)
        if r.leave_one_out_effects is not None:
            v = np.array(list(r.leave_one_out_effects.values()), float)
            v = v[np.isfinite(v)]
            kv(mon, L, "Units analyzed:", [len(r.leave_one_out_effects)], tag)
            for lab, x in (("Mean effect:", v.mean()), ("Std. dev.:", v.std(ddof=1) if len(v) > 1 else np.nan), ("Min effect:", v.min()), ("Max effect:", v.max())):
                kv(mon, L, lab, [x], tag)
        txt = " ".join(L)
        mon.check("summary", ("WARNING: Significant" in txt) == bool(r.p_value < r.alpha) and ("No significant" in txt) == (not r.p_value < r.alpha), f"{tag}: verdict with p={r.p_value}, alpha={r.alpha}")
        th = re.search(r"\(p (?:<|>=) ([\d.e-]+)\)", txt)
        mon.check("level", th is not None and abs(float(th.group(1)) - r.alpha) < 1e-6, f"{tag}: verdict states threshold {th and th.group(1)}, alpha={r.alpha}")
        attrs(mon, r, one_row(mon, r, tag), tag, {"conf_int_lower": lambda: r.conf_int[0], "conf_int_upper": lambda: r.conf_int[1]})
    elif n == "WildBootstrapResults":
        for lab, v in (("Bootstrap SE:", r.se), ("Bootstrap p-value:", r.p_value), ("Original t-stat:", r.t_stat_original), ("Number of clusters:", r.n_clusters), ("Bootstrap reps:", r.n_bootstrap)):
            kv(mon, L, lab, [v], tag)
        m = re.search(r"CI \(([\d.]+)%\):\s*\[(\S+), (\S+)\]", "\n".join(L))
        mon.check("level", m is not None and abs(float(m.group(1)) - 100 * (1 - r.alpha)) < 1e-4 and ok_num(m.group(2), r.ci_lower) and ok_num(m.group(3), r.ci_upper), f"{tag}: {m and m.groups()}")
        kv(mon, L, "Weight type:", r.weight_type, tag)
    elif n == "PowerResults":
        for lab, v in (("Significance level (alpha):", r.alpha), ("Treated units:", r.n_treated), ("Control units:", r.n_control), ("Total units:", r.n_treated + r.n_control),
                       ("Pre-treatment periods:", r.n_pre), ("Post-treatment periods:", r.n_post), ("Residual SD (sigma):", r.sigma), ("Intra-cluster correlation:", r.rho),
                       ("Effect size:", r.effect_size), ("Power:", r.power), ("Minimum detectable effect:", r.mde), ("Required sample size:", r.required_n)):
            kv(mon, L, lab, [v], tag)
        kv(mon, L, "Design:", r.design, tag)
        attrs(mon, r, one_row(mon, r, tag), tag, {})
        repr_has(mon, r, [r.power, r.mde, r.required_n], tag)
    elif n == "SimulationPowerResults":
        for lab, v in (("Number of simulations:", r.n_simulations), ("True treatment effect:", r.true_effect), ("Significance level (alpha):", r.alpha), ("Power (rejection rate):", r.power),
                       ("Mean estimate:", r.mean_estimate), ("Bias:", r.bias), ("Std. deviation of estimates:", r.std_estimate), ("RMSE:", r.rmse),
                       ("Mean standard error:", r.mean_se), ("Coverage (CI contains true):", r.coverage)):
            kv(mon, L, lab, [v], tag)
        kv(mon, L, "Estimator:", r.estimator_name, tag)
        kv(mon, L, "95% CI:", list(r.power_ci), tag)
        attrs(mon, r, one_row(mon, r, tag), tag, {"power_ci_lower": lambda: r.power_ci[0], "power_ci_upper": lambda: r.power_ci[1]})
        f = r.power_curve_df()
        mon.check("frame", list(f["effect_size"]) == list(r.effect_sizes) and list(f["power"]) == list(r.powers), f"{tag}: curve frame")
        repr_has(mon, r, [r.power, r.n_simulations], tag)
    else:
        mon.saw("no-views")


# ------------------------------------------------------------------ artists
def points(ax):
    out = []
    caps = {id(l) for c in ax.containers if isinstance(c, ErrorbarContainer) for l in c.lines[1]}
    for l in ax.get_lines():
        if id(l) not in caps and l.get_marker() not in (None, "None", "", " "):
            out += list(zip(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)))
    for c in ax.collections:
        if isinstance(c, PathCollection):
            out += [tuple(map(float, o)) for o in c.get_offsets()]
    return out


def segments(ax):
    """Vertical bars (x, lo, hi)."""
    out = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                s = np.asarray(s, float)
                if len(s) == 2 and s[0, 0] == s[1, 0]:
                    out.append((s[0, 0], min(s[:, 1]), max(s[:, 1])))
    return out


def vlines(ax):
    return [float(l.get_xdata()[0]) for l in ax.get_lines() if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1]]


def hlines(ax):
    return [float(l.get_ydata()[0]) for l in ax.get_lines() if len(l.get_ydata()) == 2 and l.get_ydata()[0] == l.get_ydata()[1]]


def curves(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.get_lines() if len(l.get_xdata()) > 2 or (len(l.get_xdata()) == 2 and l.get_xdata()[0] != l.get_xdata()[1])]


def near(a, b, s=1.0):
    return abs(a - b) <= 1e-7 * (abs(b) + s)


def has(lst, v, s=1.0):
    return any(all(near(a, b, s) for a, b in zip(np.atleast_1d(x), np.atleast_1d(v))) for x in lst)


def match(mon, got, want, tag, scale):
    """The drawn tuples are exactly the wanted ones."""
    mon.check("plot", len(got) == len(want) and all(has(got, w, scale) for w in want) and all(has(want, g, scale) for g in got),
              f"{tag}: drawn {got[:6]} ({len(got)}), expected {want[:6]} ({len(want)})")


def norm(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return s


def labels(ax):
    ax.figure.canvas.draw_idle()
    return {float(x): t.get_text() for x, t in zip(ax.get_xticks(), ax.get_xticklabels())}


def plot_es(mon, rng, r, tag):
    n = type(r).__name__
    if n == "MultiPeriodDiDResults":
        eff_ = {p: (e.effect, e.se) for p, e in r.period_effects.items()}
        ref = None
    else:
        if not r.event_study_effects:
            return
        eff_ = {p: (e["effect"], e["se"]) for p, e in r.event_study_effects.items()}
        ref = next((p for p, e in r.event_study_effects.items() if e.get("n_groups", 1) == 0), None)
    kw, src, al = {}, r, .05
    if maybe(rng):
        kw["alpha"] = al = alpha_of(rng)
    if maybe(rng, .3):
        kw["reference_period"] = pick(rng, *eff_)
    form = pick(rng, "result", "result", "frame", "dict")
    if form == "frame":
        keys = [list(eff_)[i] for i in rng.permutation(len(eff_))]
        src = pd.DataFrame({"period": keys, "effect": [eff_[k][0] for k in keys], "se": [eff_[k][1] for k in keys]})
        order = keys
    elif form == "dict":
        kw.update(effects={k: v[0] for k, v in eff_.items()}, se={k: v[1] for k, v in eff_.items()})
        src, order = None, sorted(eff_)
    else:
        order = list(r.post_periods) if n == "MultiPeriodDiDResults" else sorted(eff_)
    if maybe(rng, .2):
        order = [k for k in order if maybe(rng, .7)] or order
        order = [order[i] for i in rng.permutation(len(order))] if maybe(rng, .4) else order
        kw["periods"] = list(order)
    show = [k for k in order if np.isfinite(eff_[k][0])]
    if not show:
        return
    fig, ax = plt.subplots()
    viz.plot_event_study(src, ax=ax, show=False, **kw)
    base = kw.get("reference_period")
    shift = eff_[base][0] if base is not None and np.isfinite(eff_[base][0]) else 0.0
    sc = max(1e-12, np.nanmax([abs(eff_[k][0]) for k in show]))
    z = stats.norm.ppf(1 - al / 2)
    match(mon, points(ax), [(i, eff_[k][0] - shift) for i, k in enumerate(show)], f"{tag} event-study points {kw.keys()} {form}", sc)
    match(mon, segments(ax), [(i, eff_[k][0] - shift - z * eff_[k][1], eff_[k][0] - shift + z * eff_[k][1]) for i, k in enumerate(show)
                              if np.isfinite(eff_[k][1]) and not (k == base and np.isfinite(eff_[k][0]))], f"{tag} event-study bars {kw.keys()} {form}", sc)
    lab = labels(ax)
    mon.check("plot", [norm(lab.get(float(i))) for i in range(len(show))] == [norm(str(k)) for k in show], f"{tag}: tick labels {lab}, periods {show}")
    mark = base if base is not None else (ref if form == "result" else None)
    if mark in show:
        mon.check("plot", has(vlines(ax), show.index(mark)), f"{tag}: reference line at {vlines(ax)}, reference {mark}")
        hollow = [float(np.asarray(l.get_xdata())[0]) for l in ax.get_lines() if l.get_marker() not in ("None", None, "", "|", "_") and str(l.get_markerfacecolor()) == "white"]
        mon.check("plot", hollow == [float(show.index(mark))], f"{tag}: hollow (reference) markers at {hollow}, reference {mark} of {show}")
    mon.state(n, "event-study", form, "ref" if base is not None else "", "periods" in kw)
    plt.close(fig)


def plot_gt(mon, rng, r, tag):
    al = alpha_of(rng)
    fig, ax = plt.subplots()
    viz.plot_group_effects(r, alpha=al, ax=ax, show=False)
    z = stats.norm.ppf(1 - al / 2)
    sc = max(abs(e["effect"]) for e in r.group_time_effects.values()) + 1e-12
    match(mon, points(ax), [(t, e["effect"]) for (g, t), e in r.group_time_effects.items()], f"{tag} group plot points", sc)
    match(mon, [s for s in segments(ax) if np.isfinite(s[1])], [(t, e["effect"] - z * e["se"], e["effect"] + z * e["se"]) for (g, t), e in r.group_time_effects.items() if np.isfinite(e["se"])],
          f"{tag} group plot bars", sc)
    # each cohort's own line carries its own effects
    byl = {}
    for c in ax.containers:
        if hasattr(c, "lines") and c.lines[0] is not None:
            byl[c.get_label()] = list(zip(np.asarray(c.lines[0].get_xdata(), float), np.asarray(c.lines[0].get_ydata(), float)))
    for g in {g for g, _ in r.group_time_effects}:
        w = sorted((t, e["effect"]) for (h, t), e in r.group_time_effects.items() if h == g)
        got = [v for k, v in byl.items() if k.split()[-1] == str(g)]
        mon.check("plot", len(got) == 1 and len(got[0]) == len(w) and all(near(a[0], b[0]) and near(a[1], b[1], sc) for a, b in zip(got[0], w)), f"{tag}: line of cohort {g}: {got}, expected {w}")
    mon.state(type(r).__name__, "group-plot")
    plt.close(fig)


def plot_bac(mon, rng, r, tag):
    fig, ax = plt.subplots()
    col = {"treated_vs_never": "#ff0000", "earlier_vs_later": "#00ff00", "later_vs_earlier": "#0000ff"}
    viz.plot_bacon(r, ax=ax, show=False, colors=col)
    sc = max(abs(c.estimate) for c in r.comparisons) + 1e-12
    from matplotlib.colors import to_hex
    for ct, hx in col.items():
        got = [tuple(map(float, o)) for c in ax.collections if isinstance(c, PathCollection) and len(c.get_facecolors()) and to_hex(c.get_facecolors()[0]) == hx for o in c.get_offsets()]
        match(mon, got, [(c.estimate, c.weight) for c in r.comparisons if c.comparison_type == ct], f"{tag} bacon scatter {ct}", sc)
        e = r.effect_by_type()[ct]
        if e is not None and any(c.comparison_type == ct for c in r.comparisons):
            mon.check("plot", has(vlines(ax), e, sc), f"{tag}: no line at the average effect of {ct}: {vlines(ax)} vs {e}")
    mon.check("plot", has(vlines(ax), r.twfe_estimate, sc), f"{tag}: no line at TWFE")
    plt.close(fig)
    fig, ax = plt.subplots()
    viz.plot_bacon(r, plot_type="bar", ax=ax, show=False)
    lab = labels(ax)
    h = {lab.get(round(p.get_x() + p.get_width() / 2, 6), "?").replace("\n", " "): p.get_height() for p in ax.patches}
    want = {"Treated vs Never-treated": r.total_weight_treated_vs_never, "Earlier vs Later": r.total_weight_earlier_vs_later, "Later vs Earlier (forbidden)": r.total_weight_later_vs_earlier}
    mon.check("plot", set(h) == set(want) and all(near(h[k], want[k]) for k in want), f"{tag}: bars {h}, expected {want}")
    mon.state("bacon", "plot")
    plt.close(fig)


def plot_hon(mon, rng, r, hd, base, tag):
    fig, ax = plt.subplots()
    o = r.original_results
    e = {p: (v.effect, v.se) for p, v in o.period_effects.items()} if hasattr(o, "period_effects") else {p: (v["effect"], v["se"]) for p, v in o.event_study_effects.items()}
    ks = list(e) if hasattr(o, "period_effects") else sorted(e)
    sc = max(abs(v[0]) for v in e.values()) + 1e-12
    pk = {}
    if maybe(rng, .4):
        ks = pk["periods"] = [ks[i] for i in rng.permutation(len(ks))][:int(rng.integers(1, len(ks) + 1))]
    viz.plot_honest_event_study(r, ax=ax, show=False, **pk)
    lab = labels(ax)
    mon.check("plot", [norm(lab.get(float(i))) for i in range(len(ks))] == [norm(str(k)) for k in ks], f"{tag}: honest plot tick labels {lab}, periods {ks}")
    z = stats.norm.ppf(1 - r.alpha / 2)
    match(mon, points(ax), [(i, e[k][0]) for i, k in enumerate(ks)], f"{tag} honest plot points", sc)
    want = [(i, e[k][0] - z * e[k][1], e[k][0] + z * e[k][1]) for i, k in enumerate(ks) if np.isfinite(e[k][1])]
    if np.isfinite(r.ci_lb) and np.isfinite(r.ci_ub):
        want += [(i, r.ci_lb, r.ci_ub) for i in range(len(ks))]
    match(mon, [s for s in segments(ax) if np.isfinite(s[1])], want, f"{tag} honest plot bars", max(sc, abs(r.ci_lb) if np.isfinite(r.ci_lb) else 0))
    plt.close(fig)
    Ms = sorted(float(x) for x in rng.uniform(0, 2, int(rng.integers(2, 6))))
    s = hd.sensitivity_analysis(base, M_grid=Ms)
    views(mon, s, f"{tag} sensitivity")
    for f in (lambda a: viz.plot_sensitivity(s, ax=a, show=False), lambda a: s.plot(ax=a)):
        fig, ax = plt.subplots()
        f(ax)
        b, c = np.array(s.bounds), np.array(s.robust_cis)
        sc = np.nanmax(np.abs(np.where(np.isfinite(c), c, 0))) + 1e-12
        mon.check("plot", has(hlines(ax), s.original_estimate, sc), f"{tag}: no line at the original estimate")
        if s.breakdown_M is not None:
            mon.check("plot", has(vlines(ax), s.breakdown_M), f"{tag}: no line at the breakdown value {s.breakdown_M}: {vlines(ax)}")
        cv = [(x, y) for x, y in curves(ax) if len(x) == len(Ms)]
        for col, nm in ((0, "lower"), (1, "upper")):
            if np.all(np.isfinite(c)):
                mon.check("plot", any(np.allclose(x, s.M_values) and np.allclose(y, c[:, col], rtol=1e-9, atol=1e-9 * sc) for x, y in cv), f"{tag}: {nm} robust bound not drawn")
        V = [p.vertices for q in ax.collections if isinstance(q, PolyCollection) for p in q.get_paths()]
        if np.all(np.isfinite(b)) and V:
            V = np.vstack(V)
            mon.check("plot", all(has(V, (M, x[k]), sc) for M, x in zip(s.M_values, b) for k in (0, 1)), f"{tag}: identified set not drawn")
        elif np.all(np.isfinite(b)):
            mon.check("plot", False, f"{tag}: identified set missing")
        plt.close(fig)
    mon.state("honest", "plot", hasattr(o, "period_effects"), s.breakdown_M is None)


def named(ax, word):
    """x position of the vertical line whose legend entry contains a word."""
    return [float(l.get_xdata()[0]) for l in ax.get_lines() if word in str(l.get_label())]


def curve_plot(mon, ax, xs, ps, sc, tag):
    cv = [(x, y) for x, y in curves(ax) if len(x) == len(xs)]
    mon.check("plot", any(np.allclose(x, xs) and np.allclose(y, ps) for x, y in cv), f"{tag}: curve not drawn")


def k_views(mon, rng, tier):
    kind = pick(rng, *[k for k in zoo.ZOO if k != "ptrend"])
    c = zoo.ZOO[kind](rng, tier)
    y = c.cols["outcome"]
    s = float(pick(rng, 1, -1, 1e3, 1e-2, -1e6)) if kind != "trop" else 1.0   # TROP's penalties are in the units of the outcome
    c.df = c.df.assign(**{y: c.df[y] * s})
    if kind == "mp" and c.time_kw is not None and maybe(rng, .5):
        f = pick(rng, lambda t: f"Q{int(t):05d}", lambda t: pd.Timestamp("2000-01-01") + pd.Timedelta(days=int(t)))
        c = c.relabelled("time", f)
    mon.describe(kind=kind, case=str(c)[:400])
    r = c.fit()
    before = zoo.flat(r)
    views(mon, r, str(c)[:300], alpha_of(rng) if maybe(rng, .6) else None)
    mon.check("unchanged", not zoo.same(before, zoo.flat(r)), f"{c}: {zoo.same(before, zoo.flat(r))}")


def k_plots(mon, rng, tier):
    kind = pick(rng, "mp", "cs", "cs", "sa", "bacon", "honest", "pretrends")
    c = zoo.cs(rng, tier, agg=pick(rng, "event_study", "all", "group")) if kind == "cs" else zoo.ZOO[kind](rng, tier)
    mon.describe(kind=kind, case=str(c)[:400])
    if kind == "mp" and maybe(rng, .4):
        c = c.relabelled("time", lambda t: f"Q{int(t):05d}")
    tag = str(c)[:300]
    ch, c.chain = c.chain, None
    base = c.fit()
    r = ch(base) if ch else base
    before = zoo.flat(r)
    if kind in ("mp", "cs", "sa"):
        plot_es(mon, rng, r, tag)
        if kind == "cs":
            plot_gt(mon, rng, r, tag)
    elif kind == "bacon":
        plot_bac(mon, rng, r, tag)
    elif kind == "honest":
        hd = dd.HonestDiD(method=r.method, M=r.M, alpha=r.alpha)
        plot_hon(mon, rng, r, hd, base, tag)
    elif kind == "pretrends":
        tgt = float(pick(rng, .8, .5, .9))
        pt = dd.PreTrendsPower(alpha=r.alpha, power=tgt, violation_type=r.violation_type)
        cv = pt.power_curve(base, n_points=int(rng.integers(5, 12)), **c.pre_fk)
        if maybe(rng, .5):                               # magnitudes in the caller's order
            cv = pt.power_curve(base, M_grid=[float(x) for x in rng.permutation(cv.M_values)], **c.pre_fk)
        f = cv.to_dataframe()
        mon.check("frame", list(f["M"]) == list(cv.M_values) and list(f["power"]) == list(cv.powers), f"{tag}: curve frame")
        for call in (lambda a: viz.plot_pretrends_power(cv, ax=a, show=False), lambda a: cv.plot(ax=a)):
            fig, ax = plt.subplots()
            call(ax)
            curve_plot(mon, ax, cv.M_values, cv.powers, 1, tag)
            mon.check("plot", has(hlines(ax), tgt), f"{tag}: target line {hlines(ax)}, target {tgt}")
            if np.isfinite(cv.mdv):
                mon.check("plot", has(vlines(ax), cv.mdv), f"{tag}: MDV line {vlines(ax)}, mdv {cv.mdv}")
                o, pt_ = np.argsort(cv.M_values), points(ax)
                if pt_:
                    want = (cv.mdv, np.interp(cv.mdv, np.array(cv.M_values)[o], np.array(cv.powers)[o]))
                    mon.check("plot", has(pt_, want), f"{tag}: marked point {pt_}, curve passes through {want}")
            plt.close(fig)
        fig, ax = plt.subplots()                         # the same curve handed over as a table, and the single-result form
        viz.plot_pretrends_power(f, mdv=cv.mdv if maybe(rng) else None, target_power=.6, ax=ax, show=False)
        curve_plot(mon, ax, cv.M_values, cv.powers, 1, tag)
        mon.check("plot", has(hlines(ax), .6), f"{tag}: target line {hlines(ax)}, target .6")
        plt.close(fig)
        fig, ax = plt.subplots()
        viz.plot_pretrends_power(r, ax=ax, show=False)
        mon.check("plot", has(hlines(ax), r.target_power) and (not np.isfinite(r.mdv) or has(vlines(ax), r.mdv)), f"{tag}: result form lines {hlines(ax)} {vlines(ax)}")
        plt.close(fig)
        mon.state("pretrends", "plot")
    mon.check("unchanged", not zoo.same(before, zoo.flat(r)), f"{tag}: plotting changed {zoo.same(before, zoo.flat(r))}")


def k_power(mon, rng, tier):
    which = pick(rng, "analytic", "analytic", "simulation", "wild")
    mon.describe(which=which)
    if which == "analytic":
        pa = dd.PowerAnalysis(alpha=alpha_of(rng), power=float(pick(rng, .8, .9, .5)), alternative=pick(rng, "two-sided", "greater", "less"))
        kw = dict(sigma=float(rng.uniform(.5, 5)))
        if maybe(rng):
            kw.update(n_pre=int(rng.integers(1, 5)), n_post=int(rng.integers(1, 5)), rho=float(rng.uniform(0, .8)))
        e = float(rng.uniform(.3, 3)) * (-1 if pa.alternative == "less" else 1)
        nt, nc = int(rng.integers(10, 200)), int(rng.integers(10, 200))
        r = pick(rng, lambda: pa.power(effect_size=e, n_treated=nt, n_control=nc, **kw), lambda: pa.mde(n_treated=nt, n_control=nc, **kw), lambda: pa.sample_size(effect_size=e, **kw))()
        before = zoo.flat(r)
        views(mon, r, f"{pa.alternative} {kw}")
        f = pa.power_curve(n_treated=nt, n_control=nc, **kw)
        fig, ax = plt.subplots()
        mde = float(rng.uniform(f.iloc[:, 0].min(), f.iloc[:, 0].max()))
        viz.plot_power_curve(f, mde=mde, target_power=.7, ax=ax, show=False)
        curve_plot(mon, ax, f["effect_size"], f["power"], 1, "power curve")
        mon.check("plot", has(vlines(ax), mde) and has(hlines(ax), .7), f"mde/target lines {vlines(ax)} {hlines(ax)}")
        o = np.argsort(f["effect_size"].to_numpy())
        pt = points(ax)
        mon.check("plot", has(pt, (mde, np.interp(mde, f["effect_size"].to_numpy()[o], f["power"].to_numpy()[o])), 1), f"marked point {pt}")
        plt.close(fig)
        mon.state("power", "curve", pa.alternative)
    elif which == "simulation":
        es = [float(x) for x in rng.permutation(np.round(rng.uniform(.2, 4, int(rng.integers(2, 4))), 3))]
        r = dd.simulate_power(dd.DifferenceInDifferences(alpha=alpha_of(rng)), n_units=20, n_periods=4, treatment_period=2, treatment_effect=pick(rng, 1.0, es[0], float(np.mean(es))),
                              effect_sizes=es if maybe(rng, .7) else None, n_simulations=8, seed=int(rng.integers(1e6)), progress=False)
        before = zoo.flat(r)
        views(mon, r, f"simulation {es}")
        if len(r.effect_sizes) > 1:
            fig, ax = plt.subplots()
            viz.plot_power_curve(r, ax=ax, show=False)
            curve_plot(mon, ax, r.effect_sizes, r.powers, 1, "simulated power curve")
            mon.check("plot", has(vlines(ax), r.true_effect), f"line at {vlines(ax)}, true effect {r.true_effect}")
            mon.check("plot", not named(ax, "MDE"), f"the true effect {r.true_effect} is labelled as the minimum detectable effect")
            if min(r.effect_sizes) <= r.true_effect <= max(r.effect_sizes):
                o = np.argsort(r.effect_sizes)
                mon.check("plot", has(points(ax), (r.true_effect, np.interp(r.true_effect, np.array(r.effect_sizes)[o], np.array(r.powers)[o]))), f"marked point {points(ax)}")
            plt.close(fig)
            mon.state("simulation", "curve", es == sorted(es))
    else:
        n, G = int(rng.integers(30, 80)), int(rng.integers(5, 12))
        X = np.column_stack([np.ones(n), rng.normal(0, 1, (n, 2))])
        y = X @ rng.normal(0, 1, 3) + rng.normal(0, 1, n)
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        r = wild_bootstrap_se(X, y, y - X @ b, rng.integers(0, G, n), coefficient_index=1, n_bootstrap=59, weight_type=pick(rng, "rademacher", "mammen", "webb"),
                              alpha=alpha_of(rng), seed=int(rng.integers(1e6)))
        before = zoo.flat(r)
        views(mon, r, "wild bootstrap")
    mon.check("unchanged", not zoo.same(before, zoo.flat(r)), f"{which}: {zoo.same(before, zoo.flat(r))}")


KINDS = {"views": (k_views, 330, 4000), "plots": (k_plots, 130, 1500), "power": (k_power, 90, 900)}
