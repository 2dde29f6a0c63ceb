"""C18: placebo diagnostics and parallel-trends checks are honest re-estimations."""
import itertools
import warnings
import numpy as np
import pandas as pd
from scipy import stats

from mon import refs
from mon.gen import pick, maybe, alpha_of, unit_labels
from diff_diff import DifferenceInDifferences
from diff_diff.diagnostics import leave_one_out_test, permutation_test, placebo_group_test, placebo_timing_test, run_all_placebo_tests, run_placebo_test
from diff_diff.utils import check_parallel_trends, check_parallel_trends_robust, equivalence_test_trends

RULE = ("panels of 4-40 units and 4-9 periods, any labels, order, index, imbalance and treated share, covariates, clustering; every diagnostic through its own function and "
        "through the dispatcher; non-trivial = distinct (diagnostic, shape, specification) state")
NOTE = ("Placebo estimates re-done by hand on hand-built placebo data; permutation draws on small panels checked for membership in the enumerated set of all reassignments, and the "
        "p-value against the exact one; effect-free p-values pooled over cases for uniformity.")
ASSUMPTIONS = "DifferenceInDifferences itself is the re-estimator (its own correctness is C04); without covariates the estimate is also checked against cell means."
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"timing": 60, "group": 60, "permutation": 60, "loo": 60, "all": 10, "trends": 60, "null": 60, "untouched": 120, "refuses": 20}


def make(rng, small=False, effect=None):
    n = int(rng.integers(4, 8)) if small else int(rng.integers(10, 40))
    T = int(rng.integers(4, 9))
    k = int(rng.integers(2, T))                                  # first post period index (>= 2 pre periods)
    nt = int(rng.integers(1, n)) if small else int(rng.integers(2, n - 2))
    lab = unit_labels(rng, n)
    who = np.zeros(n, int)
    who[rng.permutation(n)[:nt]] = 1
    t0 = int(pick(rng, 0, 1, 2000))
    times = [t0 + i for i in range(T)]
    u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n)
    lev = float(pick(rng, 0, 10, 5000))
    eff = float(pick(rng, 0, 1, 3)) if effect is None else effect
    df = pd.DataFrame({"unit": np.array(lab, dtype=object)[u], "time": np.array(times)[t], "treated": who[u]})
    df["x"] = rng.normal(size=len(df)) + 0.3 * t
    df["y"] = lev + rng.normal(0, 1, n)[u] + 0.2 * t + 0.5 * df.x + eff * who[u] * (t >= k) + rng.normal(0, 1, len(df))
    df["post"] = (t >= k).astype(int)
    df["cl"] = u % max(3, n // 3)
    if not small and maybe(rng, 0.3):
        df = df[rng.random(len(df)) > 0.15]
    if maybe(rng):
        df = refs.relayout(rng, df)
    return df, times, k, lev


def same(mon, name, r, f, msg):
    """Placebo result equals a DiD fit."""
    mon.close(name, [r.placebo_effect, r.se, r.t_stat, r.p_value, *r.conf_int, r.n_obs], [f.att, f.se, f.t_stat, f.p_value, *f.conf_int, f.n_obs], rtol=1e-9, atol=1e-12, msg=msg)
    mon.check(name, r.is_significant == bool(f.p_value < r.alpha), f"{msg}: significance")


def cellmeans(df, d, post):
    m = df.groupby([np.asarray(d), np.asarray(post)])["y"].mean()
    return m[1, 1] - m[1, 0] - m[0, 1] + m[0, 0]


def spec(rng, df):
    kw = {}
    if maybe(rng, 0.4):
        kw["cluster"] = pick(rng, "unit", "cl")
    elif maybe(rng, 0.3):
        kw["robust"] = False
    return kw


def frozen(mon, df, fn):
    before = df.copy(deep=True)
    r = fn()
    mon.check("untouched", df.equals(before) and list(df.columns) == list(before.columns) and df.index.equals(before.index), "input data frame modified")
    return r


def ok_cells(df, d, post, m=2):
    c = df.groupby([np.asarray(d), np.asarray(post)]).size()
    return len(c) == 4 and c.min() >= m


def k_timing(mon, rng, tier):
    df, times, k, lev = make(rng)
    kw, al = spec(rng, df), alpha_of(rng)
    fake = times[int(rng.integers(1, k))]
    post = times[k:]
    given = pick(rng, list(post), tuple(post), np.array(post), [post[i] for i in rng.permutation(len(post))])
    if 2 * k == len(times) and set(df.time) == set(times) and maybe(rng):
        given = None                                             # the second half of the periods is the documented default
    pre = df[df.time < times[k]].copy()
    pre["fp"] = (pre.time >= fake).astype(int)
    if not ok_cells(pre, pre.treated, pre.fp) or not ok_cells(df, df.treated, df.post):
        return
    via = maybe(rng)
    if via:
        r = frozen(mon, df, lambda: run_placebo_test(df, "y", "treated", "time", unit="unit", test_type=pick(rng, "fake_timing", "FAKE_TIMING"), fake_treatment_period=fake,
                                                     post_periods=given, alpha=al, **kw))
    else:
        r = frozen(mon, df, lambda: placebo_timing_test(df, "y", "treated", "time", fake, post_periods=given, alpha=al, **kw))
    mon.state("timing", via, len(times), k, tuple(sorted(kw)))
    f = DifferenceInDifferences(alpha=al, **kw).fit(pre, "y", "treated", "fp")
    same(mon, "timing", r, f, f"fake timing {fake} of {times} pre {times[:k]}")
    mon.close("timing", r.placebo_effect, cellmeans(pre, pre.treated, pre.fp), rtol=1e-7, atol=1e-8 * (1 + lev), msg="fake timing vs cell means")
    g = DifferenceInDifferences(alpha=al, **kw).fit(df, "y", "treated", "post")
    mon.close("timing", [r.original_effect, r.original_se], [g.att, g.se], rtol=1e-9, atol=1e-12, msg="original estimate")
    mon.check("timing", r.test_type == "fake_timing" and r.fake_period == fake and r.alpha == al, "echo")
    mon.raises("refuses", (ValueError,), lambda: placebo_timing_test(df, "y", "treated", "time", times[k], post_periods=post), "fake period in the post periods")


def k_group(mon, rng, tier):
    df, times, k, lev = make(rng)
    kw, al = spec(rng, df), alpha_of(rng)
    ctl = df[df.treated == 0]
    units = list(ctl.unit.unique())
    if len(units) < 3:
        return
    given = [times[i] for i in k + rng.permutation(len(times) - k)]
    if 2 * k == len(times) and set(ctl.time) == set(times) and maybe(rng):
        given = None
    fake = [units[i] for i in rng.permutation(len(units))[: int(rng.integers(1, len(units) - 1))]]
    hand = ctl.assign(f=ctl.unit.isin(fake).astype(int))
    if not ok_cells(hand, hand.f, hand.post):
        return
    via = maybe(rng)
    if via:
        # the treatment column may mark treated units or treated observations: treated units never serve as fake controls
        dd = df.assign(treated=df.treated * df.post) if maybe(rng) and (df[df.treated == 1].groupby("unit").post.max() == 1).all() else df
        r = frozen(mon, dd, lambda: run_placebo_test(dd, "y", "treated", "time", unit="unit", test_type="fake_group", fake_treatment_group=list(fake), post_periods=given, alpha=al, **kw))
    else:
        r = frozen(mon, ctl, lambda: placebo_group_test(ctl, "y", "time", "unit", list(fake), post_periods=given, alpha=al, **kw))
    mon.state("group", via, len(units), len(fake), tuple(sorted(kw)))
    f = DifferenceInDifferences(alpha=al, **kw).fit(hand, "y", "f", "post")
    same(mon, "group", r, f, f"fake group {len(fake)} of {len(units)} controls (dispatcher={via})")
    mon.close("group", r.placebo_effect, cellmeans(hand, hand.f, hand.post), rtol=1e-7, atol=1e-8 * (1 + lev), msg="fake group vs cell means")
    mon.check("group", list(r.fake_group) == fake and r.alpha == al and r.test_type == "fake_group", "echo")
    tr = df[df.treated == 1].unit.iloc[0]
    mon.raises("refuses", (ValueError,), lambda: run_placebo_test(df, "y", "treated", "time", unit="unit", test_type="fake_group", fake_treatment_group=[tr, fake[0]], post_periods=times[k:]), "a treated unit as fake treated")


def k_perm(mon, rng, tier):
    """Small panels: every draw is one of the enumerated reassignments, p close to the exact one."""
    df, times, k, lev = make(rng, small=True)
    if not ok_cells(df, df.treated, df.post, 1):
        return
    al = alpha_of(rng)
    B = int(pick(rng, 60, 200))
    seed = int(rng.integers(1, 10 ** 6))
    via = maybe(rng)
    d2 = df if via else df.assign(time=df.post)
    F = lambda s: (run_placebo_test(df, "y", "treated", "time", unit="unit", test_type="permutation", post_periods=times[k:], n_permutations=B, alpha=al, seed=s) if via
                   else permutation_test(d2, "y", "treated", "time", "unit", n_permutations=B, alpha=al, seed=s))
    r = frozen(mon, d2, lambda: F(seed))
    units = list(df.unit.unique())
    nt = df[df.treated == 1].unit.nunique()
    vals = {}
    for c in itertools.combinations(units, nt):
        vals[c] = cellmeans(df, df.unit.isin(c).astype(int), df.post)
    full = np.array(list(vals.values()))
    att = cellmeans(df, df.treated, df.post)
    tol = 1e-7 * (1 + lev)
    d = np.asarray(r.permutation_distribution)
    mon.state("perm", via, len(units), nt, B)
    mon.close("permutation", r.original_effect, att, rtol=1e-7, atol=tol, msg="original estimate")
    mon.close("permutation", r.original_se, DifferenceInDifferences().fit(df, "y", "treated", "post").se, rtol=1e-9, msg="original SE")
    mon.check("permutation", len(d) == B == r.n_permutations and all(np.abs(full - x).min() < tol for x in d), f"a permuted estimate is not one of the {len(full)} reassignments of {nt} units")
    gap = np.abs(np.abs(full) - abs(att))
    clear = not ((gap > 1e-11 * (1 + lev)) & (gap < 10 * tol)).any()         # no near-ties that are not ties
    exact = np.mean(np.abs(full) >= abs(att) - tol)
    se = np.sqrt(exact * (1 - exact) / B)
    if not clear:
        return
    mon.check("permutation", abs(r.p_value - exact) <= 5 * se + 1 / (B + 1) + 1e-9, f"p={r.p_value}, exact permutation p={exact} ({B} draws)")
    share = np.mean(np.abs(d) >= abs(att) - tol)
    mon.close("permutation", r.p_value, max(share, 1 / (B + 1)), atol=1e-12, msg="p-value from the recorded draws")
    cnt = np.array([sum(np.abs(d - v) < tol) for v in full])
    if len(full) > 1:
        mon.check("permutation", cnt.max() <= B / len(full) + 6 * np.sqrt(B / len(full)) + 3 or len(set(np.round(full / tol))) < len(full), f"draws concentrate on one reassignment: {cnt}")
    if len(full) > 2:
        mon.check("permutation", len(set(np.round(d, 6))) > 1, "permuted estimates are all the same")
    mon.close("permutation", [r.placebo_effect, r.se, r.t_stat], [d.mean(), d.std(ddof=1), att / d.std(ddof=1) if d.std() > 0 else np.nan], rtol=1e-6, atol=tol, msg="summary of the draws")
    mon.close("permutation", list(r.conf_int), np.percentile(d, [50 * al, 100 - 50 * al]), rtol=1e-9, atol=tol, msg="percentiles of the draws")
    mon.check("permutation", r.is_significant == bool(r.p_value < al) and r.n_obs == len(df) and r.alpha == al, "flags")
    mon.check("seed", np.array_equal(F(seed).permutation_distribution, d), "same seed, different draws")
    if len(full) > 4:
        mon.check("seed", not np.array_equal(F(seed + 1).permutation_distribution, d), "different seed, same draws")


def k_null(mon, rng, tier):
    df, times, k, lev = make(rng, effect=0.0)
    df = df.assign(y=df.y - 0.5 * df.x)
    if not ok_cells(df, df.treated, df.post):
        return
    B = 59
    r = permutation_test(df.assign(time=df.post), "y", "treated", "time", "unit", n_permutations=B, seed=int(rng.integers(1, 10 ** 6)))
    p = r.p_value
    mon.saw("null")
    mon.stream("p0", float(p))
    mon.state("null", df.unit.nunique(), df[df.treated == 1].unit.nunique())


def k_loo(mon, rng, tier):
    df, times, k, lev = make(rng, small=maybe(rng, 0.3))
    if not ok_cells(df, df.treated, df.post):
        return
    kw, al = spec(rng, df), alpha_of(rng)
    tu = list(df[df.treated == 1].unit.unique())
    d2 = df.assign(time=df.post)
    F = lambda: (run_placebo_test(df, "y", "treated", "time", unit="unit", test_type="leave_one_out", post_periods=times[k:], alpha=al, **kw) if via else leave_one_out_test(d2, "y", "treated", "time", "unit", alpha=al, **kw))
    via = maybe(rng)
    if len(tu) < 2:
        mon.raises("refuses", (RuntimeError, ValueError), F, "one treated unit")
        return
    want = {}
    for u in tu:
        d = d2[d2.unit != u]
        if ok_cells(d, d.treated, d.post, 1):
            want[u] = cellmeans(d, d.treated, d.post)
    if len(want) < len(tu):
        return
    r = frozen(mon, d2, F)
    mon.state("loo", via, len(tu), df.unit.nunique())
    mon.check("loo", set(r.leave_one_out_effects) == set(tu), f"left out {set(r.leave_one_out_effects) ^ set(tu)}")
    mon.close("loo", [r.leave_one_out_effects[u] for u in tu], [want[u] for u in tu], rtol=1e-7, atol=1e-8 * (1 + lev), msg="leave-one-out effects")
    v = np.array([r.leave_one_out_effects[u] for u in tu])
    m, s, q = v.mean(), v.std(ddof=1), len(v)
    mon.close("loo", [r.placebo_effect, r.se], [m, s], rtol=1e-9, atol=1e-12, msg="mean and spread of the leave-one-out effects")
    if s > 1e-9 * (1 + lev):
        refs.inference(mon, "loo", r.placebo_effect, r.se, r.t_stat, r.p_value, r.conf_int, al, q - 1, "leave-one-out")
    f = DifferenceInDifferences(**kw).fit(d2, "y", "treated", "post")
    mon.close("loo", [r.original_effect, r.original_se], [f.att, f.se], rtol=1e-9, atol=1e-12, msg="original estimate")
    mon.check("loo", r.is_significant == bool(r.p_value < al) and r.alpha == al, "flags")


def k_all(mon, rng, tier):
    df, times, k, lev = make(rng)
    al, B, seed = alpha_of(rng), 15, int(rng.integers(1, 10 ** 6))
    if not ok_cells(df, df.treated, df.post):
        return
    d = df
    d2 = df.assign(time=df.post)
    sh = lambda x: [x[i] for i in rng.permutation(len(x))] if maybe(rng, 0.4) else list(x)
    kw = {} if maybe(rng, 0.6) else {"robust": False}
    r = frozen(mon, d, lambda: run_all_placebo_tests(d, "y", "treated", "time", "unit", sh(times[:k]), sh(times[k:]), n_permutations=B, alpha=al, seed=seed, **kw))
    mon.check("all", set(r) == {f"fake_timing_{p}" for p in times[1:k]} | {"permutation", "leave_one_out"}, f"tests run: {sorted(r)}")
    for p in times[1:k]:
        a = r[f"fake_timing_{p}"]
        try:
            b = placebo_timing_test(d, "y", "treated", "time", p, post_periods=times[k:], alpha=al, **kw)
        except ValueError as e:
            mon.check("all", isinstance(a, dict) and a["error"] == str(e), f"{p}: {a}")
            continue
        mon.check("all", not isinstance(a, dict) and repr(a.to_dict()) == repr(b.to_dict()), f"suite entry {p} differs from the test itself")
    for name, fn in (("permutation", lambda: permutation_test(d2, "y", "treated", "time", "unit", n_permutations=B, alpha=al, seed=seed, **kw)),
                     ("leave_one_out", lambda: leave_one_out_test(d2, "y", "treated", "time", "unit", alpha=al, **kw))):
        try:
            b = fn().to_dict()
        except Exception as e:
            mon.check("all", isinstance(r[name], dict) and r[name]["error_type"] == type(e).__name__, f"{name}: {r[name]}")
            continue
        mon.check("all", not isinstance(r[name], dict) and repr(r[name].to_dict()) == repr(b), f"suite entry {name} differs")
    mon.state("all", k, len(times))


def ols_slope(t, y):
    X = np.column_stack([np.ones(len(t)), t])
    b = refs.ols(X, y)[0]
    e = y - X @ b
    return b[1], np.sqrt(e @ e / (len(t) - 2) / ((t - t.mean()) ** 2).sum()) if len(t) > 2 else np.nan


def k_trends(mon, rng, tier):
    df, times, k, lev = make(rng, small=maybe(rng, 0.2))
    if maybe(rng, 0.3):
        df["y"] = df["y"] + df.treated * (df.time - times[0]) * float(pick(rng, 0.5, 3))
    if maybe(rng, 0.4):                       # unevenly spaced periods
        new = dict(zip(times, (times[0] + np.cumsum(rng.integers(1, 5, len(times)))).tolist()))
        df["time"] = df["time"].map(new)
        times = [new[v] for v in times]
    if maybe(rng, 0.15):                      # whole-number outcomes in a narrow type
        df["y"] = np.clip(np.round(rng.normal(100, 30, len(df)) + 3 * df.treated), 0, 255).astype(pick(rng, "uint8", "int16", "int64"))
        lev = 100.0
    pp = None if maybe(rng, 0.3) else times[:k]
    if pp is not None and maybe(rng, 0.4):    # any order, any subset
        pp = [times[i] for i in rng.permutation(len(times))[:int(rng.integers(2, len(times) + 1))]]
    flat = maybe(rng, 0.08)
    if flat:                                  # one group moves in lockstep
        g = int(maybe(rng))
        df["y"] = np.where(df.treated == g, 3.0 * df.time, df["y"])
    pre = df[df.time.isin(pp if pp is not None else times[:len(times) // 2])]
    pre = pre.assign(y=pre.y.astype(float))
    a, b = pre[pre.treated == 1], pre[pre.treated == 0]
    if len(a) < 2 or len(b) < 2 or a.time.nunique() < 2 or b.time.nunique() < 2:
        return
    r = frozen(mon, df, lambda: check_parallel_trends(df, "y", "time", "treated", pre_periods=pp))
    (s1, e1), (s0, e0) = ols_slope(a.time.to_numpy(float), a.y.to_numpy()), ols_slope(b.time.to_numpy(float), b.y.to_numpy())
    mon.state("trends", len(a) == 2, len(b) == 2, pp is None, k)
    sc = 1 + lev
    mon.close("trends", [r["treated_trend"], r["control_trend"], r["trend_difference"]], [s1, s0, s1 - s0], rtol=1e-7, atol=1e-9 * sc, msg="slopes")
    mon.close("trends", [r["treated_trend_se"], r["control_trend_se"], r["trend_difference_se"]], [e1, e0, np.hypot(e1, e0)], rtol=1e-6, atol=1e-9 * sc, msg="slope SEs")
    se = np.hypot(e1, e0)
    if np.isfinite(se) and se > 1e-8 * sc:
        t = (s1 - s0) / se
        p = refs.p_two_sided(t, None)
        mon.close("trends", [r["t_statistic"], r["p_value"]], [t, p], rtol=1e-6, atol=1e-7, msg="trend test")
        mon.check("trends", abs(p - 0.05) < 1e-6 or bool(r["parallel_trends_plausible"]) == (p > 0.05), "plausibility flag")
    elif np.isnan(se):
        mon.check("trends", np.isnan(r["p_value"]) and np.isnan(r["t_statistic"]) and r["parallel_trends_plausible"] is None, f"undefined slope error but p={r['p_value']}")
    # --- distribution of changes
    un = maybe(rng, 0.7)
    if un:
        srt = pre.sort_values(["unit", "time"])
        ch = srt.assign(c=srt.groupby("unit").y.diff()).dropna(subset=["c"])
        ca, cb = ch[ch.treated == 1].c.to_numpy(), ch[ch.treated == 0].c.to_numpy()
    else:
        ca, cb = np.diff(a.groupby("time").y.mean().to_numpy()), np.diff(b.groupby("time").y.mean().to_numpy())
    B, seed = int(pick(rng, 30, 80)), int(rng.integers(1, 10 ** 6))
    th = float(pick(rng, 0.2, 0.2, 0.05, 0.5, 1.0))
    G = lambda s: check_parallel_trends_robust(df, "y", "time", "treated", unit="unit" if un else None, pre_periods=pp, n_permutations=B, seed=s, **({} if th == 0.2 else {"wasserstein_threshold": th}))
    given = None if maybe(rng, 0.6) else float(np.exp(rng.uniform(-2, 2)))
    q = frozen(mon, df, lambda: G(seed))
    mon.check("trends", len(q["treated_changes"]) == len(ca) and np.allclose(np.sort(q["treated_changes"]), np.sort(ca), atol=1e-8 * sc)
              and np.allclose(np.sort(q["control_changes"]), np.sort(cb), atol=1e-8 * sc), "changes compared")
    e = frozen(mon, df, lambda: equivalence_test_trends(df, "y", "time", "treated", unit="unit" if un else None, pre_periods=pp, equivalence_margin=given))
    if len(ca) < 2 or len(cb) < 2:
        mon.check("trends", np.isnan(q["wasserstein_p_value"]) and q["parallel_trends_plausible"] is None and np.isnan(e["tost_p_value"]) and e["equivalent"] is None, "too few changes")
        return
    w = stats.wasserstein_distance(ca, cb)
    al = np.r_[ca, cb]
    mon.close("trends", [q["wasserstein_distance"], q["wasserstein_normalized"], q["mean_difference"], q["variance_ratio"]],
              [w, w / al.std(ddof=1), ca.mean() - cb.mean(), ca.var(ddof=1) / cb.var(ddof=1) if cb.var(ddof=1) > 1e-18 * sc * sc else q["variance_ratio"]], rtol=1e-5, atol=1e-7 * sc, msg="distance between the changes")
    ks = stats.ks_2samp(ca, cb)
    mon.close("trends", [q["ks_statistic"], q["ks_p_value"]], [ks.statistic, ks.pvalue], rtol=1e-6, atol=1e-9, msg="KS test")
    ref = np.array([stats.wasserstein_distance(z[:len(ca)], z[len(ca):]) for z in (rng.permutation(al) for _ in range(300))])
    pr = np.mean(ref >= w * (1 - 1e-9))
    mon.check("trends", abs(q["wasserstein_p_value"] - pr) < 5.5 * np.sqrt((pr * (1 - pr) + 0.02) * (1 / B + 1 / 300)), f"permutation p {q['wasserstein_p_value']} vs {pr}")
    mon.check("trends", bool(q["parallel_trends_plausible"]) == bool(q["wasserstein_p_value"] > 0.05 and q["wasserstein_normalized"] < th), "plausibility flag")
    mon.check("seed", G(seed)["wasserstein_p_value"] == q["wasserstein_p_value"], "same seed")
    va, vb, na, nb = ca.var(ddof=1), cb.var(ddof=1), len(ca), len(cb)
    se = np.sqrt(va / na + vb / nb)
    if se > 1e-7 * sc:
        mg = 0.5 * al.std(ddof=1) if given is None else given
        dfw = (va / na + vb / nb) ** 2 / ((va / na) ** 2 / (na - 1) + (vb / nb) ** 2 / (nb - 1))
        md = ca.mean() - cb.mean()
        pl, pu = stats.t.sf((md + mg) / se, dfw), stats.t.cdf((md - mg) / se, dfw)
        mon.close("trends", [e["mean_difference"], e["se_difference"], e["equivalence_margin"], e["degrees_of_freedom"], e["lower_p_value"], e["upper_p_value"], e["tost_p_value"]],
                  [md, se, mg, dfw, pl, pu, max(pl, pu)], rtol=1e-4, atol=1e-7 * sc, msg="equivalence test")
        mon.check("trends", bool(e["equivalent"]) == bool(e["tost_p_value"] < 0.05), "equivalence flag")


def k_edge(mon, rng, tier):
    df, times, k, lev = make(rng)
    R = lambda f, m: mon.raises("refuses", (ValueError,), f, m)
    R(lambda: run_placebo_test(df, "y", "treated", "time", test_type="nope"), "test type")
    for tt in ("fake_group", "permutation", "leave_one_out"):
        R(lambda: run_placebo_test(df, "y", "treated", "time", test_type=tt, fake_treatment_group=[1]), f"{tt} without unit")
    R(lambda: run_placebo_test(df, "y", "treated", "time", unit="unit", test_type="fake_group"), "no fake group")
    R(lambda: placebo_group_test(df[df.treated == 0], "y", "time", "unit", ["no such unit"], post_periods=times[k:]), "unknown fake unit")
    R(lambda: placebo_timing_test(df, "y", "treated", "time", times[0], post_periods=times[k:]), "fake period without earlier data")
    mon.state("edge", k)


def FINAL(mon, streams, tier):
    p = np.array(streams.get("p0", []))
    n = len(p)
    if n < 60:
        return
    D = stats.kstest(p - 0.008, "uniform").statistic
    mon.check("null", D <= 2.2 / np.sqrt(n) + 0.03, f"effect-free permutation p-values of {n} panels not uniform: KS={D:.3f}, mean={p.mean():.3f}")
    mon.describe(n=n, ks=D, mean=p.mean(), below10=np.mean(p < 0.1))


KINDS = {"timing": (k_timing, 60, 800), "group": (k_group, 60, 800), "perm": (k_perm, 50, 800), "null": (k_null, 90, 1200), "loo": (k_loo, 60, 800),
         "all": (k_all, 15, 150), "trends": (k_trends, 260, 2500), "edge": (k_edge, 8, 60)}
