"""C16: power of the pre-trends test and its inverse."""
import copy
import numpy as np
import pandas as pd
from scipy import stats

from mon import refs
from mon.gen import pick, maybe, alpha_of
from mon.props.c08 import make as cs_make, kw_of as cs_kw, ref_cells
from mon.props.c09 import psi_of, weights, wif_cells
from mon.props.c10 import make as sa_make, terms
from mon.props.c15 import hand, container
from diff_diff import CallawaySantAnna, MultiPeriodDiD, SunAbraham
from diff_diff.pretrends import PreTrendsPower, compute_mdv, compute_pretrends_power

RULE = ("pre-period event studies from real multi-period, staggered and cohort-interaction fits and hand-built ones with any names, covariances, scales; every violation "
        "shape incl. custom, levels and targets from 1e-4 to 0.999; non-trivial = distinct (source, shape, periods, level class) state")
NOTE = ("Covariances come from an explicit reference regression or unit-level influence functions; powers from scipy's noncentral chi-square survival function; "
        "the minimum detectable violation is verified by evaluating the power there.")
ASSUMPTIONS = ("The 'linear' shape is the documented [k-1,...,1,0] pattern (violation zero in the last pre-period), so with one pre-period it has no direction: "
               "the detectable violation is infinite and power is the level.")
SCALE = 3                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"inputs": 200, "power": 600, "mdv": 200, "curve": 120, "same-power": 150, "edge": 20}


def shape_w(kind, k, custom):
    w = {"linear": np.arange(k - 1, -1, -1.0), "constant": np.ones(k), "last_period": np.eye(k)[-1]}.get(kind, custom)
    nrm = np.linalg.norm(w)
    return w / nrm if nrm > 0 else w


def study(mon, rng):
    """-> results, fit kwargs, effects, ses, covariance, scale, source"""
    src = pick(rng, "hand", "hand", "hand-plain", "mp", "cs", "cs", "sa")
    if src in ("hand", "hand-plain"):
        _, bpre, bpost, V, s = hand(rng, "mp")
        k = len(bpre)
        if src == "hand-plain":
            r = container("mp", bpre, bpost, V, rng)
            from diff_diff.results import PeriodEffect
            r.coefficients, r.vcov = {}, None
            for i, p in enumerate(r.pre_periods):
                r.period_effects[p] = PeriodEffect(period=p, effect=float(bpre[i]), se=float(np.sqrt(V[i, i])), t_stat=0.0, p_value=0.5, conf_int=(0.0, 1.0))
            return r, {}, bpre, np.sqrt(np.diag(V))[:k], np.diag(np.diag(V)[:k]), s, src
        r = container("mp", bpre, bpost, V, rng, treat=pick(rng, "treated", "ever", "D"))
        kw = {}
        if maybe(rng):
            kw = dict(pre_periods=[([*r.pre_periods, 99])[i] for i in rng.permutation(len(r.pre_periods) + 1)])       # a period without coefficient (the reference) does not count
        return r, kw, bpre, np.sqrt(np.diag(V))[:k], V[:k, :k], s, src
    if src == "mp":
        n, T = int(rng.integers(16, 40)), int(rng.integers(4, 9))
        k = int(rng.integers(2, T))                                 # periods 0..k-1 are pre; 0 is the reference
        s = float(pick(rng, 1, 100, 1e-3))
        u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n)
        d = (u < n // 3).astype(int)
        name = pick(rng, "treated", "ever", "D")
        y = s * (rng.normal(size=n)[u] + 0.3 * t + rng.normal(size=n * T))
        df = pd.DataFrame({"unit": u, "time": t, name: d, "y": y})
        cl = pick(rng, None, "unit")
        r = MultiPeriodDiD(cluster=cl).fit(df, outcome="y", treatment=name, time="time", post_periods=list(range(1, T)))
        X = np.column_stack([np.ones(len(y)), d] + [(t == p) * 1.0 for p in range(1, T)] + [(t == p) * d * 1.0 for p in range(1, T)])
        b = refs.ols(X, y)[0]
        V = refs.vcov(X, y - X @ b, "cluster" if cl else "hc1", u if cl else None)
        i = list(range(2 + T - 1, 2 + T - 1 + k - 1))
        return r, dict(pre_periods=[int(x) for x in rng.permutation(k)] if maybe(rng, 0.3) else list(range(k))), b[i], np.sqrt(np.diag(V))[i], V[np.ix_(i, i)], s, src
    if src == "sa":
        for _ in range(10):
            df, m = sa_make(rng, big=0)
            keys, cols, rel, g = terms(df, 0)
            if not keys or refs.rank_of(np.column_stack(cols)) < len(cols):
                continue
            y = df.y.to_numpy(float)
            b, e, Xr, rk = refs.lsdv(df, y, cols, ["unit", "time"])
            if refs.rank_of(Xr) < Xr.shape[1] or len(df) - rk - Xr.shape[1] < 5:
                continue
            es = sorted({q for c, q in keys if q < 0})
            if not es:
                continue
            r = SunAbraham().fit(df, "y", "unit", "time", "first_treat")
            V = refs.vcov(Xr, e, "cluster", df.unit.to_numpy())
            W = np.zeros((len(es), len(keys)))
            for i, q in enumerate(es):
                for (c, qq), w in ((kk, r.cohort_weights[kk[1]][kk[0]]) for kk in keys if kk[1] == q):
                    W[i, keys.index((c, qq))] = w
            V = W @ V @ W.T
            se = np.array([r.event_study_effects[q]["se"] for q in es])
            if not (np.sqrt(np.diag(V)) > 1e-6 * y.std()).all() or np.linalg.cond(V / np.outer(se, se)) > 1e6:
                continue
            sd = np.sqrt(np.diag(V))
            return r, {}, W @ b, se, V / np.outer(sd, sd) * np.outer(se, se), float(y.std()), src
        return None
    for _ in range(20):
        df, m = cs_make(rng)
        kw = cs_kw(rng)
        cells, units, g = ref_cells(df, kw)
        if not cells:
            continue
        r = CallawaySantAnna(**kw).fit(df, "y", "unit", "time", "first_treat", aggregate="event_study")
        cells = {(float(a), float(b)): v for (a, b), v in cells.items()}
        gte = {(float(a), float(b)): v for (a, b), v in r.group_time_effects.items()}
        if set(gte) != set(cells):
            continue
        W, psi = weights(gte, kw["anticipation"], None), psi_of(cells)
        es = {float(k): v for k, v in r.event_study_effects.items()}
        if any(not v["se"] > 0 for v in es.values() if v["n_groups"] > 0):
            continue
        pre = sorted(e for e, v in es.items() if e < 0 and v["n_groups"] > 0)
        if not pre:
            continue
        P = np.array([sum(x * psi[k] for k, x in W[("e", e)].items()) + wif_cells(W[("e", e)], gte, cells) for e in pre])
        V = P @ P.T
        sd = np.sqrt(np.diag(V))
        if np.linalg.cond(V / np.outer(sd, sd)) > 1e6:
            continue
        if maybe(rng, 0.3):
            # bootstrap standard errors: the joint correlation with the reported spreads
            r = CallawaySantAnna(**kw, n_bootstrap=60, seed=int(rng.integers(1e6))).fit(df, "y", "unit", "time", "first_treat", aggregate="event_study")
            es = {float(k): v for k, v in r.event_study_effects.items()}
            sb = np.array([es[e]["se"] for e in pre])
            if not (np.isfinite(sb).all() and (sb > 0).all()):
                continue
            return r, {}, np.array([es[e]["effect"] for e in pre]), sb, V * np.outer(sb / sd, sb / sd), float(df.y.std()), "cs-boot-" + kw["base_period"]
        return r, {}, np.array([es[e]["effect"] for e in pre]), sd, V, float(df.y.std()), "cs-" + kw["base_period"]
    return None


def power(M, w, V, al):
    k = len(w)
    cv = stats.chi2.isf(al, k)
    nc = M * M * (w @ np.linalg.solve(V, w))
    return (stats.ncx2.sf(cv, k, nc) if nc > 1e-12 else al), nc, cv


def k_power(mon, rng, tier):
    st = study(mon, rng)
    if st is None:
        return
    r, fkw, b, se, V, s, src = st
    k = len(b)
    kind = pick(rng, "linear", "constant", "last_period", "custom")
    custom = None
    if kind == "custom":
        custom = rng.normal(size=k) * float(pick(rng, 1, 10)) if maybe(rng, 0.7) else rng.integers(0, 3, k) + (np.arange(k) == 0)
    al = float(pick(rng, 0.05, 0.05, 0.1, 0.01, 0.32, 1e-4))
    tp = float(pick(rng, 0.8, 0.8, 0.5, 0.9, 0.99, 0.999))
    P = PreTrendsPower(alpha=al, power=tp, violation_type=kind, violation_weights=custom if custom is None or maybe(rng) else list(custom))
    w = shape_w(kind, k, custom)
    mon.describe(src=src, kind=kind, alpha=al, target=tp, b=b, V=V, custom=custom)
    mon.state(src, kind, k, al, tp)
    q = P.fit(r, **fkw)
    mon.close("inputs", q.pre_period_effects, b, rtol=1e-6, atol=1e-8 * s, msg="pre-period effects")
    mon.close("inputs", q.pre_period_ses, se, rtol=1e-5, atol=1e-9 * s, msg="pre-period SEs")
    mon.close("inputs", q.vcov, V, rtol=1e-4, atol=1e-5 * np.diag(V).max(), msg="pre-period covariance")
    mon.check("inputs", q.n_pre_periods == k and q.alpha == al and q.target_power == tp and q.violation_type == kind and q.original_results is r, "echo")
    if np.linalg.cond(V / np.outer(se, se)) > 1e7:
        return
    if np.linalg.norm(w) == 0:
        mon.check("mdv", q.mdv == np.inf and abs(q.power - al) < 1e-9, f"no direction: mdv {q.mdv} power {q.power}")
        return
    u = 1 / np.sqrt(w @ np.linalg.solve(V, w))              # M at which the noncentrality is one
    mon.check("mdv", q.mdv >= 0 and np.isfinite(q.mdv), f"mdv {q.mdv}")
    mon.close("mdv", power(q.mdv, w, V, al)[0], tp, rtol=1e-4, atol=1e-5, msg="power at the minimum detectable violation")
    mon.check("mdv", q.violation_magnitude == q.mdv and abs(q.power - tp) < 1e-4, f"default magnitude {q.violation_magnitude} mdv {q.mdv} power {q.power}")
    if custom is None and maybe(rng, 0.3):
        bare = copy.copy(q)
        bare.violation_weights = None                           # results that carry only the name of the pattern
        mon.close("same-power", [bare.power_at(u), bare.power_at(3 * u)], [q.power_at(u), q.power_at(3 * u)], rtol=1e-9, msg=f"power_at from the pattern name {kind}")
    last = None
    for M in sorted([0.0] + [u * float(x) for x in rng.uniform(0, 7, 3)]):
        f = P.fit(r, M=M, **fkw)
        p, nc, cv = power(M, w, V, al)
        mon.close("power", [f.power, f.noncentrality, f.critical_value, f.test_statistic], [p, nc, cv, k + nc], rtol=1e-4, atol=2e-5, msg=f"M={M}")
        mon.check("power", f.violation_magnitude == M and f.mdv == q.mdv, "echo of M")
        mon.close("same-power", [q.power_at(M), P.power_at(r, M, **fkw), q.power_at(-M)], [f.power] * 3, rtol=1e-7, atol=1e-9, msg=f"power_at({M})")
        mon.check("monotone", last is None or f.power >= last - 1e-9, f"power falls to {f.power} at M={M}")
        last = f.power
        mon.check("flags", f.power_adequate == (f.power >= tp) and f.is_informative == (f.mdv < 2 * f.pre_period_ses.max()), "flags")
    if maybe(rng, 0.6):
        grid = None if maybe(rng, 0.6) else [0.0] + sorted(u * rng.uniform(0, 6, 5))
        n = int(rng.integers(5, 30))
        c = P.power_curve(r, M_grid=grid, n_points=n, **fkw)
        mon.check("curve", c.alpha == al and c.target_power == tp and c.violation_type == kind and c.mdv == q.mdv, "curve echo")
        mon.close("curve", c.powers, [power(M, w, V, al)[0] for M in c.M_values], rtol=1e-4, atol=2e-5, msg="power curve")
        if grid is None:
            mon.close("curve", [len(c.M_values), c.M_values[0], c.M_values[-1]], [n, 0, 2.5 * q.mdv], rtol=1e-6, atol=1e-12, msg="automatic grid from 0 to 2.5 MDV")
        else:
            mon.check("curve", list(c.M_values) == list(grid), "grid echo")
        fr = c.to_dataframe()
        mon.check("curve", list(fr.M) == list(c.M_values) and list(fr.power) == list(c.powers), "curve data frame")
    if custom is None:
        M = u * 1.7
        a = compute_pretrends_power(r, M=M, alpha=al, target_power=tp, violation_type=kind, **fkw)
        mon.check("same-power", a.power == P.fit(r, M=M, **fkw).power and compute_mdv(r, alpha=al, target_power=tp, violation_type=kind, **fkw) == q.mdv, "convenience functions")
    h = P.sensitivity_to_honest_did(r, **fkw)
    mon.close("same-power", [h["mdv"], h["max_pre_se"], h["mdv_in_ses"]], [q.mdv, se.max(), q.mdv / se.max()], rtol=1e-5, msg="comparison with sensitivity analysis")


def k_units(mon, rng, tier):
    """Rescaling the event study rescales the detectable violation; inverting twice is the identity."""
    _, bpre, bpost, V, s = hand(rng, "mp")
    c = float(pick(rng, 1e-4, 1e4, 37.0))
    kind = pick(rng, "constant", "last_period", "linear")
    if kind == "linear" and len(bpre) == 1:
        kind = "constant"
    tp, al = float(rng.uniform(0.4, 0.95)), float(pick(rng, 0.05, 0.1))
    P = PreTrendsPower(alpha=al, power=tp, violation_type=kind)
    a, b = P.fit(container("mp", bpre, bpost, V)), P.fit(container("mp", c * bpre, c * bpost, c * c * V, treat="g"))
    mon.close("units", b.mdv, c * a.mdv, rtol=1e-7, msg="detectable violation in other units")
    M = a.mdv * float(rng.uniform(0.3, 2))
    p = P.power_at(container("mp", bpre, bpost, V), M)
    if al < p < 1 - 1e-6:
        mon.close("inverse", PreTrendsPower(alpha=al, power=p, violation_type=kind).fit(container("mp", bpre, bpost, V)).mdv, M, rtol=1e-4, msg="MDV at the achieved power")
    mon.close("units", PreTrendsPower(alpha=al, power=tp, violation_type="custom", violation_weights=7 * a.violation_weights).fit(container("mp", bpre, bpost, V)).mdv,
              a.mdv, rtol=1e-9, msg="custom pattern equal to the named one")
    mon.state("units", kind, len(bpre), c)


def k_sim(mon, rng, tier):
    """Reported power is the rejection share of the joint test over simulated event studies."""
    _, bpre, bpost, V, s = hand(rng, "mp")
    k = len(bpre)
    kind = pick(rng, "constant", "last_period", "linear")
    w = shape_w(kind, k, None)
    al, tp = float(pick(rng, 0.05, 0.1)), float(rng.uniform(0.2, 0.9))
    r = container("mp", bpre, bpost, V)
    q = PreTrendsPower(alpha=al, power=tp, violation_type=kind).fit(r)
    M = q.mdv if np.isfinite(q.mdv) else 1.0
    N = 20000
    D = rng.multivariate_normal(M * w, V[:k, :k], N)
    Wst = np.einsum("ij,ij->i", D, np.linalg.solve(V[:k, :k], D.T).T)
    share = (stats.chi2.sf(Wst, k) < al).mean()
    mon.check("simulated", abs(share - q.power) < 5 * np.sqrt(0.25 / N), f"simulated rejection {share} vs reported power {q.power}")
    mon.state("sim", kind, k)


def k_edge(mon, rng, tier):
    _, bpre, bpost, V, s = hand(rng, "mp")
    k = len(bpre)
    r = container("mp", bpre, bpost, V, treat="g")
    R = lambda f, m: mon.raises("edge", (ValueError,), f, m)
    R(lambda: PreTrendsPower(alpha=float(pick(rng, 0, 1, -1, 2))), "alpha")
    R(lambda: PreTrendsPower(power=float(pick(rng, 0, 1, -1, 2))), "power")
    R(lambda: PreTrendsPower(violation_type="quadratic"), "violation type")
    R(lambda: PreTrendsPower(violation_type="custom"), "custom without weights")
    R(lambda: PreTrendsPower(violation_type="custom", violation_weights=np.ones(k + 1)).fit(r), "wrong number of weights")
    R(lambda: PreTrendsPower().fit(r, pre_periods=[]), "no pre-periods")
    R(lambda: PreTrendsPower().fit(r, pre_periods=[77, 78]), "pre-periods without estimates")
    mon.raises("edge", (TypeError,), lambda: PreTrendsPower().fit({"a": 1}), "unsupported results")
    R(lambda: PreTrendsPower().fit(container("mp-nopre", bpre, bpost, V)), "no pre-period coefficients")
    # target below the level: any violation is "detected" often enough
    q = PreTrendsPower(alpha=0.2, power=0.1, violation_type="constant").fit(r)
    mon.check("edge", q.mdv == 0, f"target power below the level: mdv {q.mdv}")
    # an undefined (dropped) coefficient is not part of the test
    if k > 1:
        i = int(rng.integers(k))
        r2 = container("mp", bpre, bpost, V, treat="g")
        r2.coefficients[f"g:period_{r2.pre_periods[i]}"] = np.nan
        j = list(r2.coefficients).index(f"g:period_{r2.pre_periods[i]}")
        r2.vcov = r2.vcov.copy()
        r2.vcov[j, :] = r2.vcov[:, j] = np.nan
        keep = [x for x in range(k) if x != i]
        q = PreTrendsPower(violation_type="constant").fit(r2)
        mon.check("edge", q.n_pre_periods == k - 1, "undefined coefficient counted")
        mon.close("edge", power(q.mdv, shape_w("constant", k - 1, None), V[np.ix_(keep, keep)], 0.05)[0], 0.8, atol=1e-4, msg="power without the undefined coefficient")
    mon.state("edge", k)


KINDS = {"power": (k_power, 400, 4000), "units": (k_units, 60, 600), "sim": (k_sim, 16, 300), "edge": (k_edge, 20, 200)}
