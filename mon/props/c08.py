"""C08: group-time effects against their 2x2 definitions."""
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of, panel
from diff_diff import CallawaySantAnna

RULE = ("staggered panels (irregular periods, cohorts inside/at/after the window edges, dropped rows, missing outcomes, 0/inf never coding, "
        "label types, row orders) x control group x base period x anticipation x method x covariates; non-trivial = distinct "
        "(configuration, panel shape) state")
NOTE = "Every reported cell recomputed from the raw panel; the set of cells, counts, SEs and the controls used are checked."
SCALE = 4                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"cells": 200, "effect": 150, "counts": 300, "se": 150, "inference": 2000, "never-code": 40,
            "covariate-effect": 300, "spy-controls": 100}


def make(rng, cov=0, **kw):
    T = int(rng.integers(3, 9))
    n_c = int(rng.integers(1, min(4, T) + 1))
    pool = np.arange(0 if maybe(rng, 0.3) else 1, T)
    cohorts = sorted(int(c) for c in rng.choice(pool, min(n_c, len(pool)), replace=False))
    kw.setdefault("time0", int(pick(rng, 1, 2, 1990)))
    df, m = panel(rng, n_periods=T, cohorts=cohorts, irregular=maybe(rng, 0.3), min_size=2 if not cov else 14,
                  n_units=int(rng.integers(24, 60)) if not cov else int(rng.integers(70, 130)),
                  drop=float(pick(rng, 0, 0, 0.05, 0.2)), covs=cov, level=float(pick(rng, 0, 10, 5000)), **kw)
    if maybe(rng, 0.2):                                   # a cohort first treated after the data end
        us = df.loc[df.first_treat == 0, "unit"].unique()
        if len(us) > 6:
            df.loc[df.unit.isin(list(us[:2])), "first_treat"] = m["times"][-1] + int(pick(rng, 1, 3))
    if maybe(rng, 0.25):
        k = rng.random(len(df)) < 0.05
        df.loc[k, "y"] = np.nan
    return df, m


def kw_of(rng):
    return dict(control_group=pick(rng, "never_treated", "not_yet_treated"), base_period=pick(rng, "varying", "universal"),
                anticipation=int(pick(rng, 0, 0, 0, 1, 2)), estimation_method=pick(rng, "dr", "ipw", "reg"), alpha=alpha_of(rng))


def ref_cells(df, kw):
    return refs.cs_cells(df, kw["control_group"], kw["base_period"], kw["anticipation"])


def k_cells(mon, rng, tier):
    df, m = make(rng)
    kw = kw_of(rng)
    cells, units, g = ref_cells(df, kw)
    msg = f"{kw} cohorts={m['cohorts']} times={m['times']}"
    mon.describe(spec=msg, n=len(df))
    if maybe(rng):
        df = refs.relayout(rng, df)
    if maybe(rng, 0.3):
        df["first_treat"] = df["first_treat"].astype(float)
        df["time"] = df["time"].astype(float)
    fit = lambda d: CallawaySantAnna(**kw).fit(d, "y", "unit", "time", "first_treat")
    if not cells:
        mon.raises("cells", (ValueError,), lambda: fit(df), f"{msg}: no identified cell")
        return
    r = fit(df)
    got = {(float(a), float(b)): v for (a, b), v in r.group_time_effects.items()}
    want = {(float(a), float(b)): v for (a, b), v in cells.items()}
    mon.check("cells", set(got) == set(want), f"{msg}: extra {sorted(set(got) - set(want))[:5]} missing {sorted(set(want) - set(got))[:5]}")
    ys = np.nanstd(df.y.to_numpy(float))
    keys = sorted(set(got) & set(want))
    mon.close("effect", [got[k]["effect"] for k in keys], [want[k]["att"] for k in keys], atol=1e-9 * ys + 1e-10, rtol=1e-9, scale=abs(np.nanmean(df.y)) * 1e-3, msg=f"{msg}: effects")
    mon.check("counts", all(got[k]["n_treated"] == want[k]["nt"] and got[k]["n_control"] == want[k]["nc"] for k in keys), f"{msg}: cell counts")
    v = lambda x: np.var(x, ddof=1) if len(x) > 1 else 0.0
    se = [np.sqrt(v(want[k]["d"][want[k]["tr"]]) / want[k]["nt"] + v(want[k]["d"][want[k]["co"]]) / want[k]["nc"]) for k in keys]
    mon.close("se", [got[k]["se"] for k in keys], se, rtol=1e-7, atol=1e-9, msg=f"{msg}: SE")
    for k in keys:
        q = got[k]
        refs.inference(mon, "inference", q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], kw["alpha"], None, f"{msg} {k}")
    nev = refs.is_never(g)
    mon.check("unit-counts", r.n_treated_units == int((~nev).sum()) and r.n_control_units == int(nev.sum()) and r.n_obs == len(df)
              and [float(x) for x in r.groups] == sorted(set(g[~nev])) and [float(x) for x in r.time_periods] == sorted(set(df.time.astype(float))),
              f"{msg}: {r.n_treated_units}/{r.n_control_units} groups={r.groups}")
    mon.state("cells", kw["control_group"], kw["base_period"], kw["anticipation"], kw["estimation_method"], len(m["cohorts"]), len(m["times"]), len(cells))


def k_code(mon, rng, tier):
    df, m = make(rng)
    kw = kw_of(rng)
    d2 = df.copy()
    d2["first_treat"] = d2["first_treat"].astype(float)
    us = d2.loc[d2.first_treat == 0, "unit"].unique()
    some = us if maybe(rng) else us[: max(1, len(us) // 2)]
    d2.loc[d2.unit.isin(list(some)), "first_treat"] = np.inf
    try:
        a = CallawaySantAnna(**kw).fit(df, "y", "unit", "time", "first_treat", aggregate="all")
    except ValueError:
        mon.raises("never-code", (ValueError,), lambda: CallawaySantAnna(**kw).fit(d2, "y", "unit", "time", "first_treat"), "same refusal")
        return
    b = CallawaySantAnna(**kw).fit(d2, "y", "unit", "time", "first_treat", aggregate="all")
    mon.check("never-code", set(a.group_time_effects) == set(b.group_time_effects) and list(a.groups) == list(b.groups)
              and a.n_control_units == b.n_control_units and a.n_treated_units == b.n_treated_units, f"{kw}: 0 vs inf changes cells {b.groups}")
    for k, v in a.group_time_effects.items():
        mon.close("never-code", [b.group_time_effects[k][f] for f in ("effect", "se", "p_value")], [v[f] for f in ("effect", "se", "p_value")], rtol=1e-10, msg="0 vs inf")
    mon.close("never-code", [b.overall_att, b.overall_se], [a.overall_att, a.overall_se], rtol=1e-10, msg="overall, 0 vs inf")
    mon.state("code", len(some) == len(us), kw["control_group"], kw["base_period"])


def k_covariates(mon, rng, tier):
    nx = int(pick(rng, 1, 2, 3))
    df, m = make(rng, cov=nx)
    kw = kw_of(rng)
    covs = [f"x{i+1}" for i in range(nx)]
    if maybe(rng, 0.4):                                     # time-varying: the base-period value must be used
        df["x1"] = df["x1"] + 0.5 * rng.normal(size=len(df)) + 0.1 * (df.time - df.time.min())
    if maybe(rng, 0.3):
        df["x1"] = df["x1"] * 1e4 + 5e4
    elif maybe(rng, 0.35):                                  # strong selection: propensities near the clipping limits
        df["x1"] = df["x1"] / df["x1"].std() + float(rng.uniform(1, 2.5)) * (df["first_treat"] > 0)
    cells, units, g = ref_cells(df, kw)
    msg = f"{kw} covs={nx} cohorts={m['cohorts']}"
    mon.describe(spec=msg, n=len(df))
    if not cells:
        return
    r = CallawaySantAnna(**kw).fit(df, "y", "unit", "time", "first_treat", covariates=covs)
    got = r.group_time_effects
    mon.check("cells", set(got) == set(cells), f"{msg}: cells differ")
    W = {t: df[df.time == t].set_index("unit").reindex(units)[covs].to_numpy(float) for t in m["times"]}
    ys = np.nanstd(df.y.to_numpy(float))
    for k, c in cells.items():
        X = W[c["base"]]
        Xt, Xc = X[c["tr"]], X[c["co"]]
        if np.isnan(Xt).any() or np.isnan(Xc).any():
            continue
        ref = refs.cs_covariate(kw["estimation_method"], c["d"][c["tr"]], c["d"][c["co"]], Xt, Xc)
        q = got[k]
        mon.check("counts", q["n_treated"] == c["nt"] and q["n_control"] == c["nc"], f"{msg}: counts {k}")
        if ref is None:
            continue
        mon.close("covariate-effect", q["effect"], ref[0], rtol=2e-4, atol=2e-5 * ys, msg=f"{msg}: {k} effect")
        mon.close("covariate-se", q["se"], ref[1], rtol=2e-3, atol=1e-8, msg=f"{msg}: {k} se")
        refs.inference(mon, "inference", q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], kw["alpha"], None, f"{msg} {k}")
    mon.state("cov", kw["control_group"], kw["base_period"], kw["anticipation"], kw["estimation_method"], nx, len(cells))


def k_no_leak(mon, rng, tier):
    """Perturb the outcomes of units that must not be controls: no cell of another cohort may move."""
    df, m = make(rng)
    if len(m["cohorts"]) < 2:
        return
    kw = kw_of(rng)
    try:
        r = CallawaySantAnna(**kw).fit(df, "y", "unit", "time", "first_treat")
    except ValueError:
        return
    c = pick(rng, *m["cohorts"])
    u = df.loc[df.first_treat == c, "unit"].iloc[0]
    d2 = df.copy()
    hit = (d2.unit == u) & (d2.time >= c - kw["anticipation"])
    d2.loc[hit, "y"] += 1000.0 * (1 + rng.random(int(hit.sum())))
    r2 = CallawaySantAnna(**kw).fit(d2, "y", "unit", "time", "first_treat")
    for k, v in r.group_time_effects.items():
        if k[0] == c:
            continue
        mon.close("spy-controls", [r2.group_time_effects[k][f] for f in ("effect", "se", "n_control")], [v[f] for f in ("effect", "se", "n_control")],
                  rtol=1e-9, atol=1e-9, msg=f"{kw}: treated outcomes of cohort {c} leak into cell {k}")
    mon.state("leak", kw["control_group"], kw["base_period"], kw["anticipation"], len(m["cohorts"]))


def k_refused(mon, rng, tier):
    df, m = make(rng)
    V = (ValueError,)
    fit = lambda d: CallawaySantAnna().fit(d, "y", "unit", "time", "first_treat")
    d = df[df.first_treat != 0]
    mon.raises("refused", V, lambda: fit(d), "no never-treated units")
    d = df.copy(); d["first_treat"] = 0
    mon.raises("refused", V, lambda: fit(d), "no cohort")
    d = df.copy(); d["first_treat"] = d["first_treat"].astype(float); d.iloc[int(rng.integers(len(d))), d.columns.get_loc("first_treat")] = np.nan
    mon.raises("refused", V, lambda: fit(d), "missing timing")
    d = pd.concat([df, df.iloc[[0]]], ignore_index=True)
    mon.raises("refused", V, lambda: fit(d), "duplicated unit-period")
    mon.raises("refused", V, lambda: fit(df.drop(columns="first_treat")), "missing column")
    mon.state("refused", len(m["cohorts"]))


KINDS = {"cells": (k_cells, 260, 6000), "code": (k_code, 30, 400), "covariates": (k_covariates, 240, 2500),
         "no_leak": (k_no_leak, 40, 800), "refused": (k_refused, 8, 60)}
