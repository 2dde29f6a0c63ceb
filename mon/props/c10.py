"""C10: Sun-Abraham against the explicit saturated dummy-variable regression."""
import warnings
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of, panel
from diff_diff import SunAbraham

RULE = ("staggered panels with 1-4 cohorts (up to 45 periods, unbalanced, irregular, 0/inf never coding, any row order and index), anticipation, "
        "covariates, cluster choices, pairs bootstrap; non-trivial = distinct (design, specification) state")
NOTE = "Cohort effects, IW aggregates, weights, overall effect and delta-method SEs recomputed from an explicit LSDV fit; bootstrap statistics from the recorded draws."
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"cohort-effects": 120, "iw": 700, "overall": 100, "iw-se": 700, "inference": 700, "boot": 20, "never-code": 10}


def make(rng, tier="quick", big=0.08, irr=True):
    T = int(rng.integers(4, 9))
    n_units = int(rng.integers(20, 45))
    if maybe(rng, big):
        T, n_units = int(rng.integers(24, 46)), int(rng.integers(12, 20))
    n_c = int(rng.integers(1, min(4, T - 1) + 1))
    cohorts = sorted(int(c) for c in rng.choice(np.arange(1, T), n_c, replace=False))
    if T > 20 and maybe(rng, 0.7):
        cohorts = sorted({int(rng.integers(1, 4)), int(rng.integers(T - 4, T))})
    df, m = panel(rng, n_units=n_units, n_periods=T, cohorts=cohorts, irregular=irr and maybe(rng, 0.15) and T < 10, drop=float(pick(rng, 0, 0, 0, 0.1)),
                  tv_covs=2, level=float(pick(rng, 0, 10, 3000)), min_size=3, time0=int(pick(rng, 1, 2, 1990)))
    m["big"] = T > 20
    if maybe(rng, 0.3):
        df["first_treat"] = df["first_treat"].astype(float)
    if maybe(rng, 0.4):
        df = refs.relayout(rng, df)
    return df, m


def terms(df, a):
    g = df.first_treat.to_numpy(float)
    rel = np.where(refs.is_never(g), np.nan, df.time.to_numpy(float) - g)
    keys, cols = [], []
    for c in sorted(set(g[~refs.is_never(g)])):
        for e in sorted(set(rel[g == c])):
            if e == -1 - a:
                continue
            keys.append((c, e))
            cols.append(((g == c) & (rel == e)).astype(float))
    return keys, cols, rel, g


def k_fit(mon, rng, tier):
    df, m = make(rng, tier)
    a = int(pick(rng, 0, 0, 0, 1))
    covs = [z for z in ("z1", "z2") if maybe(rng, 0.3)]
    cl = pick(rng, None, None, "cl")
    alpha = alpha_of(rng)
    cg = pick(rng, "never_treated", "not_yet_treated")
    msg = f"anticip={a} covs={covs} cluster={cl} cohorts={m['cohorts']} T={len(m['times'])}"
    mon.describe(spec=msg, n=len(df))
    keys, cols, rel, g = terms(df, a)
    run = lambda d: SunAbraham(control_group=cg, anticipation=a, cluster=cl, alpha=alpha, rank_deficient_action="silent").fit(d, "y", "unit", "time", "first_treat", covariates=covs or None)
    # cohorts never observed at the reference period carry no effect relative to it
    lost = [c for c in sorted(set(g[~refs.is_never(g)])) if not ((g == c) & (rel == -1 - a)).any()]
    if lost and len(lost) == len(set(g[~refs.is_never(g)])):
        mon.raises("refused", (ValueError,), lambda: run(df), f"{msg}: no cohort observed at the reference period")
        mon.state("no reference", len(lost), a)
        return
    if lost:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = run(df)
        mon.check("unidentified-cohort", any("reference period" in str(x.message) for x in w), f"{msg}: cohorts {lost} have no reference period and nothing is said")
        df = df[~np.isin(g, lost)]
        keys, cols, rel, g = terms(df, a)
        mon.state("lost cohort", len(lost), a)
    else:
        r = run(df)
    if not keys:
        return
    y = df.y.to_numpy(float)
    X = cols + [df[c].to_numpy(float) for c in covs]
    b, e, Xr, rk = refs.lsdv(df, y, X, ["unit", "time"]) if refs.rank_of(np.column_stack(X)) == len(X) else (None,) * 4
    n = len(df)
    ok = b is not None and refs.rank_of(Xr) == Xr.shape[1] and n - rk - Xr.shape[1] >= 3
    if not ok:
        bad = [k for k, v in r.cohort_effects.items() if not np.isfinite(v["effect"])]
        mon.check("rank", bool(bad) or n - rk - Xr.shape[1] < 3 if b is not None else True, f"{msg}: unidentified regression but every cohort effect finite")
        return
    ys = y.std()
    K = len(keys)
    got = {(float(c), float(t)): v for (c, t), v in r.cohort_effects.items()}
    mon.check("cohort-keys", set(got) == set(keys), f"{msg}: cohort cells {sorted(set(got) ^ set(keys))[:6]}")
    if set(got) != set(keys):
        return
    mon.close("cohort-effects", [got[k]["effect"] for k in keys], b[:K], rtol=1e-6, atol=1e-7 * ys, msg=f"{msg}: cohort effects")
    V = refs.vcov(Xr, e, "cluster", df[cl or "unit"].to_numpy())
    f = np.array([got[k]["se"] for k in keys]) ** 2 / np.maximum(np.diag(V)[:K], 1e-300)
    live = np.diag(V)[:K] > 1e-10 * ys ** 2
    hi = (n - Xr.shape[1]) / max(n - Xr.shape[1] - rk, 1)
    mon.check("cohort-se", np.all((f[live] > 1 - 1e-4) & (f[live] < hi * (1 + 1e-4))), f"{msg}: cohort SE^2 ratio {f[live]} outside [1,{hi}]")
    c0 = float(np.median(f[live])) if live.any() else 1.0        # the library's degrees-of-freedom convention
    V = V * c0
    sizes = df.assign(g=g).groupby("g")["unit"].nunique()
    es = {float(k): v for k, v in r.event_study_effects.items()}
    mon.check("event-keys", set(es) == {k[1] for k in keys}, f"{msg}: event times {sorted(set(es) ^ {k[1] for k in keys})}")
    wfull = {}
    cw = {float(t): {float(c): x for c, x in d.items()} for t, d in r.cohort_weights.items()}
    for t in sorted(es):
        ks = [k for k in keys if k[1] == t]
        w = np.array([cw[t].get(k[0], 0.0) for k in ks])
        mon.check("weights", abs(w.sum() - 1) < 1e-9 and (w >= 0).all() and len(cw[t]) == len(ks), f"{msg}: weights at {t}: {cw[t]}")
        w1 = np.array([sizes[k[0]] for k in ks], float)
        w2 = np.array([((g == k[0]) & (rel == t)).sum() for k in ks], float)
        mon.check("weights", np.allclose(w, w1 / w1.sum(), atol=1e-9) or np.allclose(w, w2 / w2.sum(), atol=1e-9), f"{msg}: weights at {t}: {w} want {w1 / w1.sum()}")
        idx = [keys.index(k) for k in ks]
        q = es[t]
        mon.close("iw", q["effect"], w @ b[idx], rtol=1e-6, atol=1e-7 * ys, msg=f"{msg}: e={t}")
        s = np.sqrt(max(w @ V[np.ix_(idx, idx)] @ w, 0))
        mon.close("iw-se", q["se"], s, rtol=1e-4, atol=1e-5 * ys, msg=f"{msg}: se e={t}")
        mon.check("n-groups", q["n_groups"] == len(ks), f"{msg}: n_groups at {t}")
        if q["se"] > 1e-6 * ys:
            refs.inference(mon, "inference", q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], alpha, None, f"{msg}: e={t}")
        for k, x in zip(ks, w):
            mon.close("stored-weight", got[k]["weight"], x, atol=1e-12, msg=f"{msg}: stored weight {k}")
    post = sorted(t for t in es if t >= 0)
    if post:
        cnt = np.array([((rel == t) & ~refs.is_never(g)).sum() for t in post], float)
        w = cnt / cnt.sum()
        mon.close("overall", r.overall_att, sum(x * es[t]["effect"] for x, t in zip(w, post)), rtol=1e-9, atol=1e-9 * ys, msg=f"{msg}: overall")
        L = np.zeros(K)
        for x, t in zip(w, post):
            for k in keys:
                if k[1] == t:
                    L[keys.index(k)] += x * cw[t].get(k[0], 0.0)
        mon.close("overall-se", r.overall_se, np.sqrt(L @ V[:K, :K] @ L), rtol=1e-4, atol=1e-6 * ys, msg=f"{msg}: overall se")
        refs.inference(mon, "inference", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, alpha, None, f"{msg}: overall")
    else:
        mon.check("overall", np.isnan(r.overall_att), f"{msg}: overall {r.overall_att} without post periods")
    nev = refs.is_never(df.groupby("unit").first_treat.first().to_numpy(float))
    mon.check("unit-counts", r.n_treated_units == int((~nev).sum()) and r.n_control_units == int(nev.sum()) and r.n_obs == n
              and [float(x) for x in r.groups] == sorted(set(g[~refs.is_never(g)])), f"{msg}: counts {r.groups}")
    mon.state("fit", a, len(covs), cl, len(m["cohorts"]), len(m["times"]), m["big"], min(m["sizes"]))


def k_code(mon, rng, tier):
    df, m = make(rng, big=0, irr=False)
    d2 = df.copy()
    d2["first_treat"] = d2["first_treat"].astype(float)
    us = d2.loc[d2.first_treat == 0, "unit"].unique()
    some = us if maybe(rng) else us[: max(1, len(us) // 2)]
    d2.loc[d2.unit.isin(list(some)), "first_treat"] = np.inf
    B = int(pick(rng, 0, 0, 12))
    F = lambda d: SunAbraham(n_bootstrap=B, seed=3).fit(d, "y", "unit", "time", "first_treat")
    a, b = F(df), F(d2)
    mon.check("never-code", [float(x) for x in a.groups] == [float(x) for x in b.groups] and a.n_treated_units == b.n_treated_units
              and a.n_control_units == b.n_control_units and set(a.cohort_effects) == set(b.cohort_effects), f"0 vs inf: {b.groups} {b.n_treated_units}")
    mon.close("never-code", [b.overall_att, b.overall_se, b.overall_p_value], [a.overall_att, a.overall_se, a.overall_p_value], rtol=1e-8, msg="overall 0 vs inf")
    for e, v in a.event_study_effects.items():
        mon.close("never-code", [b.event_study_effects[e][f] for f in ("effect", "se")], [v[f] for f in ("effect", "se")], rtol=1e-8, atol=1e-10, msg=f"0 vs inf e={e}")
    mon.state("code", len(some) == len(us), B, len(m["cohorts"]))


def k_boot(mon, rng, tier):
    df, m = make(rng, big=0, irr=False)
    if min(m["sizes"]) < 4:
        return
    B, alpha = int(pick(rng, 40, 60)), alpha_of(rng)
    covs = ["z1"] if maybe(rng, 0.3) else None
    seed = int(rng.integers(1e6))
    msg = f"B={B} covs={covs} cohorts={m['cohorts']}"
    a = SunAbraham(alpha=alpha).fit(df, "y", "unit", "time", "first_treat", covariates=covs)
    F = lambda d: SunAbraham(alpha=alpha, n_bootstrap=B, seed=seed).fit(d, "y", "unit", "time", "first_treat", covariates=covs)
    b = F(df)
    R = b.bootstrap_results
    d = np.asarray(R.bootstrap_distribution, float)
    if not np.isfinite(a.overall_att) or not np.isfinite(d).all():
        return
    mon.close("boot-estimates", [b.overall_att] + [v["effect"] for v in b.event_study_effects.values()],
              [a.overall_att] + [v["effect"] for v in a.event_study_effects.values()], rtol=1e-10, atol=1e-12, msg=f"{msg}: estimates moved by bootstrap")
    mon.check("boot", d.shape == (B,) and R.n_bootstrap == B and R.alpha == alpha, f"{msg}: draws")
    mon.close("boot", [b.overall_se, *b.overall_conf_int], [d.std(ddof=1), *np.percentile(d, [50 * alpha, 100 - 50 * alpha])], rtol=1e-9, atol=1e-12, msg=f"{msg}: se/ci from draws")
    opp = (d <= 0).mean() if b.overall_att >= 0 else (d >= 0).mean()
    mon.close("boot", b.overall_p_value, min(1, max(2 * opp, 1 / (B + 1))), rtol=1e-9, msg=f"{msg}: p from draws")
    mon.close("boot", b.overall_t_stat, b.overall_att / b.overall_se, rtol=1e-9, msg=f"{msg}: t")
    mon.close("boot", [R.overall_att_se, *R.overall_att_ci, R.overall_att_p_value], [b.overall_se, *b.overall_conf_int, b.overall_p_value], rtol=0, atol=0, msg="stored")
    if min(m["sizes"]) >= 6 and a.overall_se > 1e-9:
        q = b.overall_se / a.overall_se
        mon.check("boot-scale", 0.35 < q < 3, f"{msg}: bootstrap se {b.overall_se} vs analytic {a.overall_se}")
        mon.check("boot-scale", abs(d.mean() - b.overall_att) < 6 * b.overall_se / np.sqrt(B) + 0.5 * a.overall_se, f"{msg}: draws centred at {d.mean()}, estimate {b.overall_att}")
        mon.stream("bootratio", float(q))
    for e, v in b.event_study_effects.items():
        if e in R.event_study_ses:
            mon.close("boot-event", [v["se"], *v["conf_int"], v["p_value"]], [R.event_study_ses[e], *R.event_study_cis[e], R.event_study_p_values[e]], rtol=0, atol=0, msg="event stored")
    g = df.groupby("unit").first_treat.first()
    for e, v in b.event_study_effects.items():
        n_e = sum(int((g == c).sum()) for c in b.groups if (c, e) in b.cohort_effects)
        sa_ = a.event_study_effects[e]["se"]
        if min(m["sizes"]) >= 6 and n_e >= 6 and sa_ > 1e-9 and np.isfinite(v["se"]):
            mon.check("boot-event", 0.25 < v["se"] / sa_ < 4, f"{msg}: event {e} bootstrap se {v['se']} vs analytic {sa_}")
            mon.stream("eventratio", float(v["se"] / sa_))
            lo, hi = v["conf_int"]
            mon.check("boot-event", lo - 0.8 * v["se"] < v["effect"] < hi + 0.8 * v["se"] and hi - lo < 7 * v["se"], f"{msg}: event {e} interval {lo, hi} around {v['effect']} se {v['se']}")
            mon.check("boot-event", 1 / (B + 1) - 1e-12 <= v["p_value"] <= 1 and (lo > 0 or hi < 0) <= (v["p_value"] < alpha + 4 / B),
                      f"{msg}: event {e} p {v['p_value']} with interval {lo, hi}")
    d2 = df.copy()
    d2.index = pick(rng, [f"k{i}" for i in range(len(df))], list(np.arange(len(df))[::-1] + 7), [0] * len(df))
    c = F(d2)
    mon.close("boot-index", [c.overall_se, *c.overall_conf_int, c.overall_p_value], [b.overall_se, *b.overall_conf_int, b.overall_p_value], rtol=1e-9, msg=f"{msg}: index labels change the bootstrap")
    mon.state("boot", B, bool(covs), len(m["cohorts"]), len(m["times"]))


def k_refused(mon, rng, tier):
    df, m = make(rng, big=0, irr=False)
    V = (ValueError,)
    fit = lambda d: SunAbraham().fit(d, "y", "unit", "time", "first_treat")
    mon.raises("refused", V, lambda: fit(df[df.first_treat != 0]), "no never-treated")
    mon.raises("refused", V, lambda: fit(df.assign(first_treat=0)), "no cohorts")
    mon.raises("refused", V, lambda: fit(df.assign(first_treat=np.inf)), "no cohorts (inf)")
    d = df.copy().reset_index(drop=True)
    d["first_treat"] = d["first_treat"].astype(float)
    d.loc[int(rng.integers(len(d))), "first_treat"] = np.nan
    mon.raises("refused", V, lambda: fit(d), "missing timing")
    d = df.copy().reset_index(drop=True)
    d.loc[int(rng.choice(np.flatnonzero(d.first_treat == 0))), "y"] = np.nan
    mon.raises("refused", V, lambda: fit(d), "missing outcome")
    mon.state("refused", len(m["cohorts"]))


def FINAL(mon, streams, tier):
    x = np.log(np.array(streams.get("bootratio", [])))
    y = np.log(np.array(streams.get("eventratio", [])))
    if len(y) >= 60:
        mon.check("boot-ratio-mean", -0.35 < y.mean() < 0.45, f"mean log(bootstrap/analytic se) {y.mean():.3f} over {len(y)} event-study effects")
    if len(x) >= 12:
        mon.check("boot-ratio-mean", -0.35 < x.mean() < 0.45, f"mean log(bootstrap/analytic se) {x.mean():.3f} over {len(x)} panels")


KINDS = {"fit": (k_fit, 160, 4000), "code": (k_code, 16, 250), "boot": (k_boot, 36, 500), "refused": (k_refused, 8, 60)}
