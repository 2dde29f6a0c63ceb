"""C12: synthetic difference-in-differences."""
import itertools
import math
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of, block_panel
from diff_diff import SyntheticDiD

RULE = ("balanced block-adoption panels (1-20 treated, 2-40 controls, 1-8 pre / 1-6 post periods, outcome level 0 to 1e6 and scale 1e-4 to 1e4, any labels), "
        "regularisation settings, both variance methods, covariates; non-trivial = distinct (shape, variance method, regularisation, label style) state")
NOTE = "Weights are checked for feasibility and optimality against an independent QP solver; every placebo draw must be one of the enumerated reassignments on small panels."
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"covariate-recovery": 40, "unit-weights": 200, "optimal": 100, "effect": 200, "placebo-inference": 60, "bootstrap-inference": 40,
            "placebo-draws": 40, "bootstrap-draws": 8, "invariance": 120, "time-weights": 100}


def make(rng, n_t=None, n_c=None, pre=None, post=None, level=None, scale=None, labels=None):
    pre = pre or int(rng.integers(1, 9))
    post = post or int(rng.integers(1, 7))
    n_t = n_t or int(pick(rng, 1, 1, 2, 3, int(rng.integers(1, 20))))
    n_c = n_c or int(rng.integers(max(2, min(n_t, 5)), 40))
    level = float(pick(rng, 0, 1, 10, 1000, 1e5)) if level is None else level
    scale = float(pick(rng, 1, 1, 1, 1e-3, 1e3)) if scale is None else scale
    df, m = block_panel(rng, n_units=n_t + n_c, n_periods=pre + post, n_treated=n_t, start=pre,
                        unit_sd=float(pick(rng, 0.3, 1, 3)), covs=0, tv_covs=int(pick(rng, 0, 0, 1, 2)), labels=labels, n_clusters=3)
    df["y"] = (df.y - 10) * scale + level
    times = m["times"]
    if maybe(rng, 0.2):
        df["time"] = df.time.map({t: f"p{i:02d}" for i, t in enumerate(times)})
        times = [f"p{i:02d}" for i in range(len(times))]
    if maybe(rng, 0.5):
        df = refs.relayout(rng, df)
    return df, times[:pre], times[pre:], scale


def fit(rng_kw, df, pre, post, cov=None, default_post=False):
    est = SyntheticDiD(**rng_kw)
    return est.fit(df, outcome="y", treatment="ever", unit="unit", time="time",
                   post_periods=None if default_post else list(post), covariates=cov)


def wide(df, pre, post, y=None):
    d = df.assign(_y=df.y if y is None else y)
    w = d.pivot(index="time", columns="unit", values="_y")
    tr = d.groupby("unit").ever.max()
    t, c = list(tr[tr == 1].index), list(tr[tr == 0].index)
    return w.loc[pre, c].to_numpy(float), w.loc[post, c].to_numpy(float), w.loc[pre, t].mean(axis=1).to_numpy(), w.loc[post, t].mean(axis=1).to_numpy(), t, c


def effect(Pc, Qc, pt, qt, w, lam):
    return (qt.mean() - lam @ pt) - w @ (Qc.mean(0) - lam @ Pc)


def residual(df, cov, post):
    """Outcome net of the covariates' contribution, coefficients from the untreated observations."""
    un = ~((df.ever == 1) & df.time.isin(post)).to_numpy()
    F = np.column_stack([refs.dummies(df.unit, drop_first=False), refs.dummies(df.time)])
    Z = df[cov].to_numpy(float) - df[cov].to_numpy(float).mean(0)
    y = df.y.to_numpy(float)
    y0 = y - y[un].mean()
    b, *_ = np.linalg.lstsq(np.column_stack([F, Z])[un], y0[un], rcond=None)
    return y - Z @ b[-Z.shape[1]:]


def f_effect(mon, rng, tier):
    df, pre, post, scale = make(rng)
    cov = [c for c in df.columns if c.startswith("z")] or None
    vm = pick(rng, "placebo", "bootstrap")
    lam = float(pick(rng, 0, 0, 0.5 * scale ** 2, 50 * scale ** 2))
    kw = dict(lambda_reg=lam, zeta=float(pick(rng, 1.0, 1.0, 0.1, 5.0)), variance_method=vm, n_bootstrap=int(pick(rng, 2, 15, 30)),
              alpha=alpha_of(rng), seed=int(rng.integers(1000)))
    T = len(pre) + len(post)
    default = len(pre) == T // 2 and maybe(rng)
    mon.describe(kw=kw, pre=pre, post=post, cov=cov)
    keep = df.copy(deep=True)
    try:
        r = fit(kw, df, pre, post, cov, default)
    except ValueError as e:
        if vm == "bootstrap" and "bootstrap iterations failed" in str(e):
            return                                          # every draw lacked treated or control units
        raise
    mon.check("input-untouched", df.equals(keep), "fit changed its input")
    y = residual(df, cov, post) if cov else None
    Pc, Qc, pt, qt, tu, cu = wide(df, pre, post, y)
    mon.state(len(pre), len(post), len(tu) > len(cu), vm, lam > 0, bool(cov), type(cu[0]).__name__)
    s = float(np.std(np.r_[Pc.ravel(), Qc.ravel()])) or 1.0
    mon.check("unit-weights", set(r.unit_weights) == set(cu) and len(r.unit_weights) == len(cu), f"unit weight keys {list(r.unit_weights)[:5]}")
    mon.check("time-weights", list(r.time_weights) == list(pre) or set(r.time_weights) == set(pre), f"time weight keys {list(r.time_weights)}")
    w = np.array([r.unit_weights[u] for u in cu])
    lt = np.array([r.time_weights[p] for p in pre])
    mon.check("unit-weights", (w >= 0).all() and abs(w.sum() - 1) < 1e-9, f"unit weights {w}")
    mon.check("time-weights", (lt >= 0).all() and abs(lt.sum() - 1) < 1e-9, f"time weights {lt}")
    n = len(cu)
    c0 = Pc.mean(1)
    A, b = Pc - c0[:, None], pt - c0
    obj = lambda v: ((b - A @ v) ** 2).sum() + lam * ((v - 1 / n) ** 2).sum()
    ws = refs.simplex_qp(np.vstack([A, np.sqrt(lam) * np.eye(n)]), np.r_[b, np.full(n, np.sqrt(lam) / n)])
    gap, worst = obj(w) - obj(ws), obj(np.full(n, 1 / n)) - obj(ws)
    mon.check("optimal", gap <= 2e-3 * worst + 1e-4 * s * s, f"objective {obj(w):.6g} vs optimum {obj(ws):.6g} (uniform {obj(np.full(n, 1/n)):.6g})")
    d = np.abs(pt - Pc.mean(1))
    o = np.argsort(d)
    mon.check("time-weights", np.all(np.diff(lt[o]) <= 1e-9), f"time weights {lt} do not fall with the treated-control distance {d}")
    mon.close("effect", r.att, effect(Pc, Qc, pt, qt, w, lt), rtol=1e-7, atol=1e-7 * s, scale=abs(Pc).max(), msg="weighted double difference")
    mon.close("pre-fit", r.pre_treatment_fit, np.sqrt(((pt - Pc @ w) ** 2).mean()), rtol=1e-6, atol=1e-7 * s, scale=abs(Pc).max() * 1e-3, msg="pre_treatment_fit")
    mon.check("counts", (r.n_obs, r.n_treated, r.n_control) == (len(df), len(tu), len(cu)) and list(r.pre_periods) == list(pre) and list(r.post_periods) == list(post),
              f"{r.n_obs, r.n_treated, r.n_control, r.pre_periods, r.post_periods}")
    wf = r.get_unit_weights_df()
    mon.check("unit-weights", dict(zip(wf.unit, wf.weight)) == r.unit_weights, "get_unit_weights_df differs")
    tf = r.get_time_weights_df()
    mon.check("time-weights", dict(zip(tf.period, tf.weight)) == r.time_weights, "get_time_weights_df differs")
    draws = r.placebo_effects
    mon.check("coherent", r.alpha == kw["alpha"] and r.variance_method == vm, f"alpha {r.alpha} method {r.variance_method}")
    name = vm + "-inference"
    if draws is None or len(draws) < 2:
        mon.check(name, r.se == 0 or not np.isfinite(r.se), f"se={r.se} from {draws}")
        refs.inference(mon, name, r.att, r.se, r.t_stat, r.p_value, r.conf_int, kw["alpha"], msg="no draws")
        return
    draws = np.asarray(draws)
    sd = draws.std(ddof=1)
    tiny = 1e-10 * abs(Pc).max()
    if vm == "placebo":
        mon.check(name, r.n_bootstrap in (None, kw["n_bootstrap"]), f"reported n_bootstrap {r.n_bootstrap}")
        mon.check(name, len(draws) == kw["n_bootstrap"], f"{len(draws)} draws of {kw['n_bootstrap']}")
        mon.close(name, r.se, np.sqrt((len(draws) - 1) / len(draws)) * sd, rtol=1e-8, atol=tiny, msg="placebo SE")
        if r.se > 0:
            mon.close(name, r.p_value, max((abs(draws) >= abs(r.att)).mean(), 1 / (len(draws) + 1)), rtol=1e-9, atol=1e-12, msg="placebo p-value")
    else:
        mon.check(name, r.n_bootstrap == kw["n_bootstrap"], f"reported n_bootstrap {r.n_bootstrap}")
        mon.check(name, len(draws) <= kw["n_bootstrap"], f"{len(draws)} draws")
        mon.close(name, r.se, sd, rtol=1e-8, atol=tiny, msg="bootstrap SE")
        if r.se > 0:
            mon.close(name, r.p_value, refs.p_two_sided(r.att / r.se), rtol=1e-6, atol=1e-12, msg="bootstrap p-value")
    if r.se > 0:
        z = refs.crit(kw["alpha"])
        mon.close(name, r.t_stat, r.att / r.se, rtol=1e-9, msg="t")
        mon.close(name, list(r.conf_int), [r.att - z * r.se, r.att + z * r.se], rtol=1e-8, atol=1e-10 * s, scale=abs(r.att), msg="interval")
    else:
        mon.check(name, not np.isfinite(r.t_stat) and not np.isfinite(r.p_value), f"zero SE t={r.t_stat} p={r.p_value}")


def f_draws(mon, rng, tier):
    """Small panels: every placebo draw is one of the enumerated reassignments of control units."""
    n_t = int(pick(rng, 1, 2))
    df, pre, post, scale = make(rng, n_t=n_t, n_c=int(rng.integers(n_t + 1, 7)), pre=int(rng.integers(2, 6)), scale=1.0)
    kw = dict(lambda_reg=float(pick(rng, 0, 1.0)), variance_method="placebo", n_bootstrap=120, seed=int(rng.integers(1000)))
    r = fit(kw, df, pre, post)
    Pc, Qc, pt, qt, tu, cu = wide(df, pre, post)
    w = np.array([r.unit_weights[u] for u in cu])
    lt = np.array([r.time_weights[p] for p in pre])
    poss = {}
    for S in itertools.combinations(range(len(cu)), n_t):
        R = [i for i in range(len(cu)) if i not in S]
        wr = w[R] / w[R].sum() if w[R].sum() > 0 else np.full(len(R), 1 / len(R))
        poss[S] = effect(Pc[:, R], Qc[:, R], Pc[:, list(S)].mean(1), Qc[:, list(S)].mean(1), wr, lt)
    v = np.array(list(poss.values()))
    tol = 1e-8 * (1 + abs(Pc).max())
    hit = set()
    for d in r.placebo_effects:
        j = int(np.argmin(abs(v - d)))
        mon.check("placebo-draws", abs(v[j] - d) <= tol, f"draw {d} is no reassignment; nearest {v[j]} of {len(v)}")
        hit.add(j)
    mon.state("enumerated", len(v), n_t)
    mon.check("placebo-draws", len(hit) >= 0.8 * len(v), f"only {len(hit)} of {len(v)} reassignments ever drawn in 120")


def f_boot(mon, rng, tier):
    """Tiny panels: every bootstrap draw is the estimate on some resample of whole units."""
    n_t, n_c = pick(rng, (1, 2), (2, 2), (1, 3))
    df, pre, post, scale = make(rng, n_t=n_t, n_c=n_c, pre=int(rng.integers(2, 5)), scale=1.0, level=float(pick(rng, 0, 100)))
    lam = 1.0
    kw = dict(lambda_reg=lam, variance_method="bootstrap", n_bootstrap=40, seed=int(rng.integers(1000)))
    r = fit(kw, df, pre, post)
    w = df.pivot(index="time", columns="unit", values="y")
    ever = df.groupby("unit").ever.max()
    units = list(ever.index)
    P, Q = w.loc[pre, units].to_numpy(float), w.loc[post, units].to_numpy(float)
    e = ever.to_numpy()
    poss, prob = [], []
    for S in itertools.combinations_with_replacement(range(len(units)), len(units)):
        chance = math.factorial(len(S)) / math.prod(math.factorial(S.count(x)) for x in set(S))
        S = np.array(S)
        t, c = S[e[S] == 1], S[e[S] == 0]
        if len(t) == 0 or len(c) == 0:
            continue
        prob.append(chance)
        pt, qt, Pc, Qc = P[:, t].mean(1), Q[:, t].mean(1), P[:, c], Q[:, c]
        n = len(c)
        m0 = Pc.mean(1)
        ww = refs.simplex_qp(np.vstack([Pc - m0[:, None], np.sqrt(lam) * np.eye(n)]), np.r_[pt - m0, np.full(n, np.sqrt(lam) / n)], iters=4000)
        d = abs(pt - m0)
        inv = 1 / (d + 1.0 * d.std() + 1e-10)
        poss.append(effect(Pc, Qc, pt, qt, ww, inv / inv.sum() if len(pre) > 1 else np.ones(1)))
    v, prob = np.array(poss), np.array(prob) / np.sum(prob)
    hit = set()
    for d in r.placebo_effects:
        j = int(np.argmin(abs(v - d)))
        mon.check("bootstrap-draws", abs(v[j] - d) <= 1e-4, f"draw {d} is no resample estimate; nearest {v[j]} of {len(v)}")
        hit.add(j)
    mon.check("bootstrap-draws", len(hit) > 2, f"only {len(hit)} distinct resamples in {len(r.placebo_effects)} draws")
    x, mu = np.asarray(r.placebo_effects, float), float(prob @ v)
    sd = float(np.sqrt(prob @ (v - mu) ** 2))
    if sd > 1e-3:
        mon.check("bootstrap-draws", abs(x.mean() - mu) < 6 * sd / np.sqrt(len(x)), f"draws average {x.mean()}; resampling whole units gives mean {mu}, sd {sd}")
        mon.stream("boot-moments", (float((x.mean() - mu) / (sd / np.sqrt(len(x)))), float(x.var(ddof=1) / sd ** 2)))
    mon.state("bootstrap", n_t, n_c)


def f_invariant(mon, rng, tier):
    df, pre, post, scale = make(rng, level=float(pick(rng, 0, 10)), scale=1.0)
    kw = dict(lambda_reg=float(pick(rng, 0, 0, 1.0)), zeta=float(pick(rng, 1.0, 0.3)), variance_method="placebo", n_bootstrap=8, seed=1)
    r = fit(kw, df, pre, post)
    s = float(df.y.std())
    k = float(pick(rng, 7.0, 1e3, -1e5, 1e6))
    atol = 2e-4 * s

    def same(d, what, want=r.att, se=True, tol=atol, kw=kw):
        q = fit(kw, d, pre, post)
        mon.close("invariance", q.att, want, rtol=0, atol=tol, msg=f"effect after {what}")
        if se:
            mon.close("invariance", q.se, r.se, rtol=1e-3, atol=tol, msg=f"SE after {what}")
        return q

    same(df.assign(y=df.y + k), f"adding {k} to every outcome")
    sh = {t: float(v) for t, v in zip(pre + post, rng.normal(0, float(pick(rng, 1, 100, 1e4)), len(pre) + len(post)))}
    same(df.assign(y=df.y + df.time.map(sh)), "adding a common period shock")
    same(df.sample(frac=1.0, random_state=int(rng.integers(100))), "shuffling rows")
    perm = rng.permutation(df.unit.nunique())
    mp = dict(zip(sorted(df.unit.unique()), [f"v{i:03d}" for i in perm]))
    q = same(df.assign(unit=df.unit.map(mp)), "relabelling units", se=False)
    mon.close("invariance", [q.unit_weights[mp[u]] for u in r.unit_weights], list(r.unit_weights.values()), rtol=0, atol=2e-2 if kw["lambda_reg"] == 0 else 1e-4, msg="weights after relabelling units")
    d = float(rng.normal(0, 5))
    same(df.assign(y=df.y + d * df.ever * df.time.isin(post)), f"adding {d} to treated post outcomes", want=r.att + d)
    if kw["lambda_reg"] == 0:
        c = float(pick(rng, 1e-3, 100.0, 1e4))
        q = fit(kw, df.assign(y=df.y * c), pre, post)
        mon.close("invariance", q.att / c, r.att, rtol=0, atol=atol, msg=f"effect after scaling outcomes by {c}")
    # zeta: larger -> more uniform
    q = fit({**kw, "zeta": kw["zeta"] * 10}, df, pre, post)
    sp = lambda x: max(x.time_weights.values()) - min(x.time_weights.values())
    mon.check("time-weights", sp(q) <= sp(r) + 1e-9, f"time weights spread {sp(r)} -> {sp(q)} with zeta x10")
    q = fit({**kw, "lambda_reg": 1e9 * s * s}, df, pre, post)
    n = len(q.unit_weights)
    mon.close("unit-weights", list(q.unit_weights.values()), np.full(n, 1 / n), rtol=0, atol=1e-4, msg="heavy regularisation gives uniform weights")
    mon.state("invariance", len(pre), len(post), kw["lambda_reg"] > 0)


def f_covariate(mon, rng, tier):
    """Noise-free panel with a covariate that moves with treatment: the effect is recovered exactly."""
    df, pre, post, scale = make(rng, pre=int(rng.integers(2, 8)), n_c=int(rng.integers(4, 25)), scale=1.0, level=float(pick(rng, 0, 10, 1000)))
    on = ((df.ever == 1) & df.time.isin(post)).to_numpy(float)
    z = rng.normal(0, 1, len(df)) + float(pick(rng, 0, 1, 3)) * on
    a = dict(zip(df.unit.unique(), rng.normal(0, 3, df.unit.nunique())))
    d = dict(zip(pre + post, rng.normal(0, 2, len(pre + post))))
    tau, be = float(rng.normal(0, 3)), float(rng.normal(0, 3))
    df = df.assign(z=z, const=df.unit.map(a) * 0.5, y=df.unit.map(a) + df.time.map(d) + tau * on + be * z)
    cov = pick(rng, ["z"], ["z", "const"], ["const", "z"])
    r = fit(dict(n_bootstrap=5, seed=0), df, pre, post, cov)
    mon.close("covariate-recovery", r.att, tau, rtol=1e-6, atol=1e-6, msg=f"noise-free effect with covariates {cov}")
    mon.state("covariate", len(pre), cov)


def FINAL(mon, streams, tier):
    for key in ["boot-moments"]:
        v = np.array(streams.get(key, []))
        if len(v) >= 4:
            z, q = v[:, 0], np.log(v[:, 1])
            mon.check("bootstrap-moments", abs(z.mean()) < 5 / np.sqrt(len(z)) and abs(q.mean()) < 0.15 + 1.2 / np.sqrt(len(q)),
                      f"{key}: draws against the exact resampling distribution over {len(z)} panels: mean z {z.mean():.2f}, mean log variance ratio {q.mean():.3f}")


KINDS = {"covariate": (f_covariate, 40, 500), "effect": (f_effect, 260, 4000), "placebo-draws": (f_draws, 25, 400), "bootstrap-draws": (f_boot, 24, 300), "invariance": (f_invariant, 60, 900)}
