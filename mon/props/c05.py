"""C05: multi-period DiD against its interacted dummy regression."""
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of
from diff_diff import MultiPeriodDiD

RULE = ("panels and repeated cross sections with integer/negative/string/date/float period labels, arbitrary post sets, "
        "unbalanced cells, covariates, dummied and absorbed effects, reference periods, clustering; non-trivial = distinct "
        "(data form, label type, post pattern, specification, covariance) state")
NOTE = "Period effects, average, SEs compared with an explicit interacted regression and with cell-mean double differences."
SCALE = 4                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"effects": 150, "average": 150, "double-difference": 40, "inference": 400}


def data(rng):
    T = int(rng.integers(2, 8))
    form = pick(rng, "panel", "rcs", "unbalanced")
    n = int(rng.integers(12, 40))
    if form == "rcs":
        N = n * T
        t = rng.integers(0, T, N)
        d = (rng.random(N) < rng.uniform(0.2, 0.7)).astype(int)
        for k in range(T):
            t[4 * k:4 * k + 4] = k
            d[4 * k:4 * k + 4] = [0, 0, 1, 1]
        u = rng.integers(0, n, N)
    else:
        u = np.repeat(np.arange(n), T)
        t = np.tile(np.arange(T), n)
        d = (u < max(3, int(n * rng.uniform(0.2, 0.7)))).astype(int)
    lab = pick(rng, "int", "year", "neg", "str", "date", "float")
    labels = {"int": list(range(T)), "year": [2000 + 2 * i for i in range(T)], "neg": [i - 3 for i in range(T)],
              "str": [f"q{i}" for i in range(T)], "date": list(pd.date_range("2020-01-31", periods=T, freq="MS")),
              "float": [0.5 * i for i in range(T)]}[lab]
    df = pd.DataFrame({"unit": u, "ti": t, "D": d})
    df["time"] = [labels[i] for i in t]
    df["x1"] = rng.normal(0, 1, len(df)) + 0.4 * d
    df["x2"] = rng.normal(2, 3, len(df))
    df["f1"] = rng.integers(0, 3 if len(df) < 90 or not maybe(rng, 0.12) else 25, len(df))
    df["y"] = (float(pick(rng, 0, 10, 4000)) + rng.normal(0, 1, n)[u] + rng.normal(0, 1, T)[t] + d * t * 0.5 + 0.6 * df.x1 - 0.2 * df.x2
               + rng.normal(0, 1, len(df)))
    if form == "unbalanced":
        df = df[rng.random(len(df)) > 0.2]
    if maybe(rng):
        df = refs.relayout(rng, df)
    if maybe(rng, 0.3):
        df["D"] = df["D"].astype(pick(rng, bool, float))
    return df, labels, form, lab


def k_fit(mon, rng, tier):
    df, labels, form, lab = data(rng)
    T = len(labels)
    cells = df.groupby([df.D.astype(int), "ti"]).size()
    if len(cells) < 2 * T or cells.min() < 2:
        return
    how = pick(rng, "tail", "tail", "any", "default")
    if how == "default":
        post, arg = labels[T // 2:], None
    elif how == "tail":
        post = labels[int(rng.integers(1, T)):]
        arg = list(post)
    else:
        k = int(rng.integers(1, T))
        post = [labels[i] for i in sorted(rng.choice(T, k, replace=False))]
        arg = list(post)
        if maybe(rng):
            arg = arg[::-1]
    pre = [p for p in labels if p not in post]
    ref = None if maybe(rng, 0.6) else pick(rng, *pre)
    covs = [c for c in ("x1", "x2") if maybe(rng, 0.35)]
    dum = ["f1"] if maybe(rng, 0.25) else []
    df["g"] = pd.factorize(df.unit)[0] // int(rng.integers(2, 5))       # groups of units: nested in the unit effects
    ab = pick(rng, [], [], [], [], ["unit"], ["f1"] if not dum else [], ["ti"], ["time", "unit"], ["unit", "g"] if form != "rcs" else ["g"])
    cl = pick(rng, None, "unit")
    robust = maybe(rng, 0.6)
    alpha = alpha_of(rng)
    msg = f"{form} {lab} post={how} ref={ref} covs={covs} fe={dum} absorb={ab} cl={cl} robust={robust}"
    mon.describe(spec=msg, n=len(df), T=T)
    before = df.copy(deep=True)
    r = MultiPeriodDiD(robust=robust, cluster=cl, alpha=alpha).fit(
        df, "y", "D", "time", post_periods=arg, covariates=covs or None, fixed_effects=dum or None, absorb=ab or None,
        reference_period=ref)
    pd.testing.assert_frame_equal(df, before)
    if covs and dum:
        nm = f"f1_{pick(rng, *sorted(df.f1.astype(str).unique()))}"    # a covariate named like one of the dummies is still a separate regressor
        q = MultiPeriodDiD(robust=robust, cluster=cl, alpha=alpha).fit(
            df.rename(columns={covs[-1]: nm}), "y", "D", "time", post_periods=arg, covariates=covs[:-1] + [nm], fixed_effects=dum, absorb=ab or None, reference_period=ref)
        mon.close("effects", [q.avg_att, q.avg_se], [r.avg_att, r.avg_se], rtol=1e-8, msg=f"{msg}: covariate renamed to {nm}")
    order = list(arg) if arg is not None else list(post)
    mon.check("keys", list(r.period_effects) == order and list(r.post_periods) == order and sorted(r.pre_periods) == sorted(pre)
              and all(r.period_effects[p].period == p for p in order), f"{msg}: periods {list(r.period_effects)} pre {r.pre_periods}")
    d = df.D.to_numpy(float)
    y = df.y.to_numpy(float)
    tv = df.time.to_numpy()
    ind = {p: (df.time == p).to_numpy(float) for p in labels}
    inter = [d * ind[p] for p in order]
    k0 = len(order)
    X = np.column_stack(inter + [d] + [df[c].to_numpy(float) for c in covs])
    b, e, Xr, rk = None, None, None, 0
    fes = ["ti"] + dum + [c for c in ab if c not in ("ti", "time")]
    if "unit" in ab and form != "rcs":
        X = np.column_stack(inter + [df[c].to_numpy(float) for c in covs])
    b, e, Xr, rk = refs.lsdv(df, y, list(X.T), fes)
    n = len(df)
    if refs.rank_of(Xr) < Xr.shape[1] or n - rk - Xr.shape[1] < 4:
        return
    ys = y.std()
    eff = np.array([r.period_effects[p].effect for p in order])
    mon.close("effects", eff, b[:k0], rtol=1e-7, atol=1e-7 * ys, msg=f"{msg}: effects")
    mon.close("residuals", r.residuals, e, atol=1e-6 * ys, msg=f"{msg}: residuals")
    mon.check("counts", r.n_obs == n and r.n_treated == int(d.sum()) and r.n_control == n - int(d.sum()) and r.alpha == alpha, f"{msg}: counts")
    kind = "cluster" if cl else ("hc1" if robust else "homo")
    V = refs.vcov(Xr, e, kind, df.unit.to_numpy() if cl else None)
    # refs.vcov uses k = columns after partialling out; put back the dummies counted by the design
    ktot = rk + Xr.shape[1]
    V = V * (n - Xr.shape[1]) / (n - ktot)
    se = np.array([r.period_effects[p].se for p in order])
    w = np.full(k0, 1 / k0)
    if not ab:
        mon.close("se", se, np.sqrt(np.diag(V)[:k0]), rtol=1e-5, atol=1e-12, msg=f"{msg}: {kind} se")
        mon.close("average-se", r.avg_se, np.sqrt(w @ V[:k0, :k0] @ w), rtol=1e-5, msg=f"{msg}: average se")
        mon.close("r2", r.r_squared, 1 - e @ e / ((y - y.mean()) ** 2).sum(), atol=1e-7, msg=f"{msg}: R2")
        for p in order:
            q = r.period_effects[p]
            refs.inference(mon, "inference", q.effect, q.se, q.t_stat, q.p_value, q.conf_int, alpha, n - ktot, f"{msg}: period {p}")
        refs.inference(mon, "inference", r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, alpha, n - ktot, f"{msg}: average")
        mon.close("coefs", [r.coefficients[f"D:period_{p}"] for p in order], eff, rtol=0, atol=1e-12, msg="coefficient dict")
    elif not cl:
        mon.close("absorb-se", se, np.sqrt(np.diag(V)[:k0]), rtol=1e-5, atol=1e-12, msg=f"{msg}: {kind} se against explicit dummies")
        refs.inference(mon, "inference", r.avg_att, r.avg_se, r.avg_t_stat, r.avg_p_value, r.avg_conf_int, alpha, n - ktot, f"{msg}: absorbed average")
    else:
        v0 = np.diag(V)[:k0]
        tiny = 1e-7 * np.abs(e).max(initial=0.0) / np.linalg.norm(Xr[:, :k0], axis=0)      # scores that cancel within every cluster: no variance
        ok = v0 > tiny ** 2
        mon.check("se", np.all(se[~ok] <= tiny[~ok]), f"{msg}: absorbed se {se} where the variance vanishes")
        f = se[ok] ** 2 / v0[ok]
        mon.check("se", np.all(f > (n - ktot) / (n - 1) * (1 - 1e-5)) and np.all(f < (n - ktot) / max(n - ktot - 4 - len(labels), 1) * (1 + 1e-5)),
                  f"{msg}: absorbed se ratio {f}")
    mon.close("average", r.avg_att, eff.mean(), rtol=1e-9, atol=1e-10 * ys, msg=f"{msg}: average")
    sub = r.vcov is not None and list(r.coefficients)
    if sub:
        idx = [sub.index(f"D:period_{p}") for p in order]
        mon.close("average-se", r.avg_se, np.sqrt(np.asarray(r.vcov)[np.ix_(idx, idx)].sum()) / k0, rtol=1e-7, msg=f"{msg}: avg se vs vcov")
    if not covs and not dum and not ab:
        g = df.assign(D=df.D.astype(int)).groupby(["ti", "D"])["y"].agg(["mean", "size"]).unstack()
        diff = g["mean"][1] - g["mean"][0]
        wt = 1 / (1 / g["size"][0] + 1 / g["size"][1])
        prei = [labels.index(p) for p in pre]
        base = (diff[prei] * wt[prei]).sum() / wt[prei].sum()
        mon.close("double-difference", eff, [diff[labels.index(p)] - base for p in order], atol=1e-8 * ys, msg=f"{msg}: double difference")
    mon.state(form, lab, how, ref is None, len(covs), bool(dum), tuple(ab), kind, len(order))


def k_redundant(mon, rng, tier):
    """Covariates that repeat information already in the model change neither the effects nor their inference."""
    df, labels, form, lab = data(rng)
    if len(df.groupby([df.D.astype(int), "ti"]).size()) < 2 * len(labels):
        return
    how = pick(rng, "copy", "combo", "const", "period", "group")
    D = df.D.astype(float)
    df["r"] = {"copy": df.x1, "combo": 2 * df.x1 - df.x2 + D, "const": 4.0, "period": (df.ti == 0) * 2.0, "group": 1 - D}[how]
    kw = dict(robust=maybe(rng), cluster=pick(rng, None, None, "unit"), alpha=alpha_of(rng), rank_deficient_action=pick(rng, "warn", "silent"))
    post = labels[int(rng.integers(1, len(labels))):]
    F = lambda covs: MultiPeriodDiD(**kw).fit(df, "y", "D", "time", post_periods=post, covariates=covs)
    a, b = F(["x1", "x2"]), F(["x1", "x2", "r"] if maybe(rng) else ["r", "x1", "x2"])
    if len(df) < len(a.coefficients) + 4:
        return
    ys, msg = float(df.y.std()), f"{form} {lab} {how} {kw}"
    for p in post:
        u, v = a.period_effects[p], b.period_effects[p]
        mon.close("redundant", [v.effect, v.se, *v.conf_int], [u.effect, u.se, *u.conf_int], rtol=1e-5, atol=1e-7 * ys, msg=f"{msg}: {p}")
        mon.close("redundant", v.p_value, u.p_value, rtol=1e-4, atol=1e-8, msg=f"{msg}: {p} p")
    mon.close("redundant", [b.avg_att, b.avg_se, *b.avg_conf_int, b.avg_p_value], [a.avg_att, a.avg_se, *a.avg_conf_int, a.avg_p_value], rtol=1e-4, atol=1e-7 * ys, msg=f"{msg}: average")
    mon.state("redundant", how, form, kw["robust"], kw["cluster"])


def k_refit(mon, rng, tier):
    est = MultiPeriodDiD()
    prev = []
    for _ in range(3):
        df, labels, form, lab = data(rng)
        if len(df.groupby([df.D.astype(int), "ti"]).size()) < 2 * len(labels):
            continue
        p = dict(robust=maybe(rng), cluster=pick(rng, None, "unit"), alpha=alpha_of(rng))
        est.set_params(**p)
        a = est.fit(df, "y", "D", "time", post_periods=labels[1:])
        b = MultiPeriodDiD(**p).fit(df, "y", "D", "time", post_periods=labels[1:])
        f = lambda r: [x for q in r.period_effects.values() for x in (q.effect, q.se, q.p_value)] + [r.avg_att, r.avg_se, *r.avg_conf_int]
        mon.close("refit", f(a), f(b), rtol=1e-10, atol=1e-12, msg="shared vs fresh object")
        for r0, f0 in prev:
            mon.close("refit", f(r0), f0, rtol=0, atol=0, msg="earlier result changed")
        prev.append((a, f(a)))
        mon.state("refit", form, lab, len(prev))


def k_errors(mon, rng, tier):
    df, labels, form, lab = data(rng)
    V = (ValueError,)
    E = MultiPeriodDiD()
    mon.raises("refused", V, lambda: E.fit(df, "y", "D", "time", post_periods=list(labels)), "no pre period")
    mon.raises("refused", V, lambda: E.fit(df, "y", "D", "time", post_periods=[]), "no post period")
    mon.raises("refused", V, lambda: E.fit(df, "y", "D", "time", post_periods=[labels[-1], "nope"]), "unknown post period")
    mon.raises("refused", V, lambda: E.fit(df, "y", "D", "time", post_periods=labels[-1:], reference_period="nope"), "unknown reference")
    mon.raises("refused", V, lambda: E.fit(df, "y", "ti", "time", post_periods=labels[-1:]) if len(labels) > 2 else (_ for _ in ()).throw(ValueError()), "non-binary treatment")
    one = df[df.D.astype(int) == 1]
    mon.raises("refused", V, lambda: E.fit(one, "y", "D", "time", post_periods=labels[-1:]), "no controls")
    mon.state("errors", lab)


KINDS = {"fit": (k_fit, 350, 8000), "refit": (k_refit, 30, 500), "errors": (k_errors, 20, 100),
         "redundant": (k_redundant, 50, 1000)}
