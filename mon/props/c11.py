"""C11: Goodman-Bacon decomposition."""
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, panel
from diff_diff import BaconDecomposition, bacon_decompose, TwoWayFixedEffects

RULE = ("staggered panels with 1-5 cohorts (also always-treated, treated after the end, same effective date, no never-treated, 0/inf coding, "
        "irregular periods, unbalanced rows), both weight modes; non-trivial = distinct (cohort layout, weight mode, balance) state")
NOTE = "Comparison list, windows, estimates, weights and totals recomputed from the raw panel; TWFE from an LSDV fit; the identity holds to rounding with exact weights."
SCALE = 3                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"twfe": 150, "comparisons": 150, "estimate": 600, "identity": 60, "weights": 150, "totals": 150}


def make(rng):
    T = int(rng.integers(3, 10))
    k = int(rng.integers(1, 6))
    pool = list(range(0, T + 1)) if maybe(rng, 0.4) else list(range(1, T))
    cohorts = sorted(int(c) for c in rng.choice(pool, min(k, len(pool)), replace=False))
    never = maybe(rng, 0.7)
    late = T in cohorts
    cohorts = [c for c in cohorts if c < T] or [1]
    df, m = panel(rng, n_periods=T, cohorts=cohorts, never=never or late, irregular=maybe(rng, 0.3), time0=int(pick(rng, 1, 2, 1990)),
                  n_units=int(rng.integers(15, 45)), min_size=2, drop=float(pick(rng, 0, 0, 0, 0.1)), level=float(pick(rng, 0, 10, 4000)))
    if late:                                   # some (or all) untreated units get a date after the end
        us = df.loc[df.first_treat == 0, "unit"].unique()
        us = us if not never else us[: max(1, len(us) // 2)]
        df.loc[df.unit.isin(list(us)), "first_treat"] = m["times"][-1] + int(pick(rng, 1, 2))
    if maybe(rng, 0.12):                       # a group observed in part of the window only
        g = pick(rng, *df.first_treat.unique())
        cut = float(pick(rng, *m["times"][1:]))
        gone = (df.first_treat == g) & ((df.time < cut) if maybe(rng) else (df.time >= cut))
        if df.loc[~gone, "first_treat"].nunique() > 1 and df.loc[~gone, "time"].nunique() == df.time.nunique():
            df = df[~gone]
    if maybe(rng, 0.3):
        df["first_treat"] = df["first_treat"].astype(float).replace(0.0, np.inf if maybe(rng) else 0.0)
    if maybe(rng, 0.4):
        df = refs.relayout(rng, df)
    return df, m


def expected(df):
    g = df.first_treat.to_numpy(float)
    t = df.time.to_numpy(float)
    y = df.y.to_numpy(float)
    times = np.unique(t)
    nev = refs.is_never(g)
    gs = sorted(set(g[~nev]))
    nu = lambda m: df.loc[m, "unit"].nunique()
    out = {}

    def add(kind, a, b, ma, mb, pre, post):
        if not pre.any() or not post.any():
            return
        ip, iq = np.isin(t, times[pre]), np.isin(t, times[post])
        if min((ma & ip).sum(), (ma & iq).sum(), (mb & ip).sum(), (mb & iq).sum()) == 0:
            return
        est = y[ma & iq].mean() - y[ma & ip].mean() - y[mb & iq].mean() + y[mb & ip].mean()
        na, nb = nu(ma), nu(mb)
        out[(kind, a, b)] = dict(est=est, na=na, nb=nb, w=na * nb * pre.sum() * post.sum(),
                                # "group shares and treatment variance", scaled by the share of periods covered
                                aw=na * nb / (na + nb) ** 2 * pre.sum() * post.sum() / (pre.sum() + post.sum()) / len(times), win=times[pre | post])

    for a in gs:
        if nev.any():
            add("treated_vs_never", a, "never_treated", g == a, nev, times < a, times >= a)
        for b in gs:
            if a < b:
                add("earlier_vs_later", a, b, g == a, g == b, times < a, (times >= a) & (times < b))
                add("later_vs_earlier", b, a, g == b, g == a, (times >= a) & (times < b), times >= b)
    return out, gs, nev


def k_fit(mon, rng, tier):
    df, m = make(rng)
    mode = pick(rng, "exact", "approximate")
    want, gs, nev = expected(df)
    bal = df.groupby("unit").size().nunique() == 1 and len(df) == df.unit.nunique() * df.time.nunique()
    msg = f"{mode} cohorts={gs} times={m['times']} never={int(nev.any())} balanced={bal}"
    mon.describe(spec=msg, n=len(df))
    F = lambda: (BaconDecomposition(weights=mode).fit(df, "y", "unit", "time", "first_treat") if maybe(rng)
                 else bacon_decompose(df, "y", "unit", "time", "first_treat", weights=mode))
    if not want:
        mon.raises("refused", (ValueError,), F, f"{msg}: no comparison")
        return
    r = F()
    ys = df.y.std()
    key = lambda c: (c.comparison_type, float(c.treated_group), c.control_group if c.comparison_type == "treated_vs_never" else float(c.control_group))
    got = {key(c): c for c in r.comparisons}
    mon.check("comparisons", len(got) == len(r.comparisons) and set(got) == set(want), f"{msg}: {len(r.comparisons)} comparisons, difference {sorted(map(str, set(got) ^ set(want)))[:4]}")
    w = np.array([c.weight for c in r.comparisons])
    mon.check("weights", (w >= -1e-12).all() and abs(w.sum() - 1) < 1e-9, f"{msg}: weights {w}")
    for k in set(got) & set(want):
        c, q = got[k], want[k]
        mon.close("estimate", c.estimate, q["est"], rtol=1e-9, atol=1e-9 * ys, msg=f"{msg}: {k}")
        mon.check("counts", c.n_treated == q["na"] and c.n_control == q["nb"], f"{msg}: {k} counts {c.n_treated}/{c.n_control} want {q['na']}/{q['nb']}")
        t0, t1 = c.time_window
        ints = df.time.unique()
        mon.check("window", sorted(float(t) for t in ints if t0 <= t <= t1) == sorted(map(float, q["win"])), f"{msg}: {k} window {c.time_window} periods {q['win']}")
    D = ((df.time.to_numpy(float) >= df.first_treat.to_numpy(float)) & ~nev).astype(float)
    b, e, Xr, rk = refs.lsdv(df, df.y.to_numpy(float), [D], ["unit", "time"])
    mon.close("twfe", r.twfe_estimate, b[0], rtol=1e-8, atol=1e-8 * ys, msg=f"{msg}: TWFE")
    ws = sum(c.weight * c.estimate for c in r.comparisons)
    mon.close("error-field", r.decomposition_error, abs(r.twfe_estimate - ws), rtol=1e-9, atol=1e-11 * (1 + abs(ws)), msg=f"{msg}: decomposition error")
    if mode == "exact" and set(got) == set(want):
        if bal:
            mon.close("identity", ws, b[0], rtol=1e-8, atol=1e-8 * ys, msg=f"{msg}: sum of weights*estimates vs TWFE")
        tot = sum(q["w"] for q in want.values())
        ks = sorted(want, key=str)
        if bal:
            mon.close("exact-weights", [got[k].weight for k in ks], [want[k]["w"] / tot for k in ks], rtol=1e-8, msg=f"{msg}: exact weights")
    if mode == "approximate" and set(got) == set(want):
        tot = sum(q["aw"] for q in want.values())
        ks = sorted(want, key=str)
        mon.close("approximate-weights", [got[k].weight for k in ks], [want[k]["aw"] / tot for k in ks], rtol=1e-8, msg=f"{msg}: approximate weights")
    for ty, tw, av in (("treated_vs_never", r.total_weight_treated_vs_never, r.weighted_avg_treated_vs_never),
                       ("earlier_vs_later", r.total_weight_earlier_vs_later, r.weighted_avg_earlier_vs_later),
                       ("later_vs_earlier", r.total_weight_later_vs_earlier, r.weighted_avg_later_vs_earlier)):
        cs = [c for c in r.comparisons if c.comparison_type == ty]
        s = sum(c.weight for c in cs)
        mon.close("totals", tw, s, rtol=1e-9, atol=1e-12, msg=f"{msg}: total {ty}")
        if s > 0:
            mon.close("totals", av, sum(c.weight * c.estimate for c in cs) / s, rtol=1e-9, atol=1e-10 * ys, msg=f"{msg}: average {ty}")
        else:
            mon.check("totals", av is None, f"{msg}: average of no {ty} comparison is {av}")
    mon.check("meta", r.n_timing_groups == len(gs) and [float(x) for x in r.timing_groups] == gs and r.n_never_treated == df.loc[nev, "unit"].nunique()
              and r.n_obs == len(df), f"{msg}: meta {r.timing_groups} {r.n_never_treated}")
    mon.state(mode, len(gs), bool(nev.any()), bal, gs[0] <= m["times"][0], gs[-1] > m["times"][-1], len(m["times"]))


def k_refused(mon, rng, tier):
    df, m = make(rng)
    df = df.reset_index(drop=True)
    V = (ValueError,)
    fit = lambda d: BaconDecomposition().fit(d, "y", "unit", "time", "first_treat")
    i = int(rng.integers(len(df)))
    d = df.copy(); d.loc[i, "y"] = np.nan
    mon.raises("refused", V, lambda: fit(d), "missing outcome")
    d2 = df.copy(); d2["first_treat"] = d2["first_treat"].astype(float); d2.loc[i, "first_treat"] = np.nan
    mon.raises("refused", V, lambda: fit(d2), "missing timing")
    d3 = df.copy(); d3["first_treat"] = d3["first_treat"].astype(float); d3.loc[i, "first_treat"] = 2.5
    mon.raises("refused", V, lambda: fit(d3), "timing varies within unit")
    mon.raises("refused", V, lambda: fit(df.assign(first_treat=0)), "nothing treated")
    mon.raises("refused", V, lambda: BaconDecomposition(weights="nope"), "unknown weights")
    mon.state("refused", len(m["cohorts"]))


KINDS = {"fit": (k_fit, 260, 6000), "refused": (k_refused, 10, 80)}
