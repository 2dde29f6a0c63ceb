"""C17: power, minimum detectable effect and sample size are mutually inverse; simulated power is the simulations run."""
import warnings
import numpy as np
import pandas as pd
from scipy import stats

from mon import refs
from mon.gen import pick, maybe, alpha_of
from diff_diff import CallawaySantAnna, DifferenceInDifferences, MultiPeriodDiD, PowerAnalysis, SunAbraham, TwoWayFixedEffects, simulate_power
from diff_diff.power import MAX_SAMPLE_SIZE, compute_mde, compute_power, compute_sample_size
from diff_diff.prep import generate_did_data, generate_staggered_data

RULE = ("two-period and panel designs with 2-2000 units per arm, any noise scale, correlation, allocation, level, target and alternative; simulations with recorded data "
        "sets (default and custom generators, failing draws) for every estimator; non-trivial = distinct (design, alternative, size class) or simulation state")
NOTE = "Normal-tail probabilities recomputed; detectable effects and sample sizes verified by evaluating power there; every simulated data set is recorded and re-estimated by hand."
ASSUMPTIONS = ("The two-sided detectable effect is the documented (z_{a/2}+z_power)*SE, which ignores the opposite tail: power there exceeds the target by at most that tail. "
               "The design variance (2s^2(1/nT+1/nC), or s^2(1/nT+1/nC)(1+(T-1)rho)/T for panels) is taken as documented in the code.")
SCALE = 3                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"mde": 150, "power": 600, "sample-size": 150, "monotone": 300, "curve": 60, "sim": 20, "refuses": 30}


def var(nt, nc, T, sigma, rho):
    f = 2.0 if T <= 2 else (1 + (T - 1) * rho) / T
    return sigma ** 2 * (1 / nt + 1 / nc) * f


def pw(alt, eff, se, al):
    if alt == "two-sided":
        z = stats.norm.isf(al / 2)
        return stats.norm.sf(z - eff / se) + stats.norm.sf(z + eff / se)
    z = stats.norm.isf(al)
    return stats.norm.sf(z - eff / se) if alt == "greater" else stats.norm.sf(z + eff / se)


def k_analytic(mon, rng, tier):
    alt = pick(rng, "two-sided", "two-sided", "greater", "less")
    sgn = -1 if alt == "less" else 1
    al = float(pick(rng, 0.05, 0.05, 0.1, 0.01, 0.001, 0.32))
    tp = float(pick(rng, 0.8, 0.8, 0.9, 0.5, 0.99, rng.uniform(al + 0.02, 0.999)))
    if tp <= al:
        tp = 0.8
    nt, nc = (int(np.exp(rng.uniform(np.log(2), np.log(2000)))) for _ in "ab")
    npre, npost = (int(x) for x in rng.integers(1, 7, 2)) if maybe(rng, 0.6) else (1, 1)
    T = npre + npost
    s = float(pick(rng, 1, 5, 1e-3, 1e4))
    rho = float(pick(rng, 0, 0.1, 0.5, 0.9, rng.random()))
    if T > 2 and maybe(rng, 0.2):
        rho = -float(rng.uniform(0.05, 0.9)) / T                 # admissible: down to -1/(T-1)
    P = PowerAnalysis(alpha=al, power=tp, alternative=alt)
    kw = dict(n_pre=npre, n_post=npost, rho=rho)
    mon.describe(alt=alt, alpha=al, target=tp, nt=nt, nc=nc, sigma=s, **kw)
    mon.state(alt, T > 2, int(np.log10(nt)), int(np.log10(nc)), rho > 0, al)
    m = P.mde(nt, nc, s, **kw)
    se = np.sqrt(var(nt, nc, T, s, rho))
    # --- detectable effect
    got = P.power(m.mde, nt, nc, s, **kw)
    mon.close("power", got.power, pw(alt, m.mde, se, al), rtol=1e-9, atol=1e-12, msg="power at MDE")
    slack = stats.norm.sf(stats.norm.isf(al / 2) + abs(m.mde) / se) if alt == "two-sided" else 0.0
    mon.check("mde", tp - 1e-9 <= got.power <= tp + slack + 1e-9, f"power at the MDE {m.mde} is {got.power}, target {tp}")
    mon.check("mde", m.mde * sgn > 0 and m.effect_size == m.mde and m.power == tp and m.required_n == nt + nc, f"MDE result {m}")
    mon.close("mde", got.mde, m.mde, rtol=1e-12, msg="MDE reported with power")
    for r in (m, got):
        mon.check("echo", (r.alpha, r.alternative, r.n_treated, r.n_control, r.n_pre, r.n_post, r.sigma, r.rho) == (al, alt, nt, nc, npre, npost, s, rho)
                  and r.design == ("panel" if T > 2 else "basic_did"), f"echo {r}")
    # --- power function
    effs = sorted([0.0] + [float(x) * se * sgn for x in rng.uniform(0, 6, 3)], key=abs)
    last = -1
    for e in effs:
        q = P.power(e, nt, nc, s, **kw)
        mon.close("power", q.power, pw(alt, e, se, al), rtol=1e-8, atol=1e-11, msg=f"power at {e}")
        mon.check("monotone", q.power >= last - 1e-12, "power falls with the effect")
        last = q.power
    mon.close("power", P.power(0.0, nt, nc, s, **kw).power, al, rtol=1e-9, msg="power without effect")
    if alt == "two-sided":
        mon.close("power", P.power(-effs[-1], nt, nc, s, **kw).power, last, rtol=1e-9, atol=1e-12, msg="two-sided power is symmetric")
    e = effs[1] if effs[1] else se
    p0 = P.power(e, nt, nc, s, **kw).power
    up = lambda *a, **k: P.power(*a, **k).power
    mon.check("monotone", up(e, nt + int(rng.integers(1, 50)), nc, s, **kw) >= p0 - 1e-12 and up(e, nt, nc * 2, s, **kw) >= p0 - 1e-12, "power falls with sample size")
    mon.check("monotone", up(e, nt, nc, s * float(rng.uniform(1.01, 3)), **kw) <= p0 + 1e-12, "power rises with noise")
    mon.check("monotone", up(e, nt, nc, s, n_pre=npre + 1, n_post=npost, rho=rho) >= p0 - 1e-12 and up(e, nt, nc, s, n_pre=npre, n_post=npost + 1, rho=rho) >= p0 - 1e-12,
              "power falls with the number of periods")
    if T > 2:
        mon.check("monotone", up(e, nt, nc, s, n_pre=npre, n_post=npost, rho=rho + (1 - rho) * float(rng.random())) <= p0 + 1e-12, "power rises with intra-cluster correlation")
    # --- sample size
    e = sgn * s * float(np.exp(rng.uniform(np.log(0.02), np.log(3))))
    tf = float(pick(rng, 0.5, 0.5, 0.3, 0.1, 0.9, rng.uniform(0.05, 0.95)))
    z = P.sample_size(e, s, treat_frac=tf, **kw)
    n = z.required_n
    mon.check("sample-size", z.n_treated + z.n_control == n and min(z.n_treated, z.n_control) >= 1, f"{z}")
    a = P.power(e, z.n_treated, z.n_control, s, **kw).power
    mon.check("sample-size", a >= tp - 1e-9, f"power {a} with the required sample {z.n_treated}+{z.n_control}, target {tp}, treat_frac {tf}")
    # not grossly more: the exact continuous requirement, plus rounding of both arms
    zz = (stats.norm.isf(al / 2 if alt == "two-sided" else al) + stats.norm.ppf(tp)) ** 2
    exact = var(tf, 1 - tf, T, s, rho) * zz / e ** 2
    mon.check("sample-size", n <= exact * (1 + 1e-6) + 2 + 2 / min(tf, 1 - tf) and n >= min(exact * (1 - 1e-6) - 1, 4), f"required {n}, exact requirement {exact}")
    if 4 < n < 5000:
        # one unit fewer does not do, however that unit is taken away
        less = sorted({int(np.floor((n - 1) * tf)), int(np.ceil((n - 1) * tf))})
        less = less if 2 <= less[0] and less[-1] <= n - 3 else []
        zq = lambda x: zz * var(x, n - 1 - x, T, s, rho)
        mon.check("minimal", not less or any(zq(x) > e * e * (1 - 1e-9) for x in less), f"required {n} units, but {n-1} already reach power {tp} ({less})")
    if min(z.n_treated, z.n_control) > 20:
        mon.check("sample-size", abs(z.n_treated - tf * n) <= 1 + 1e-6, f"allocation {z.n_treated}/{n}, asked {tf}")
    mon.check("sample-size", np.sign(z.mde) == sgn and abs(z.mde) <= abs(e) * (1 + 1e-9), f"MDE {z.mde} of the required sample exceeds the effect {e}")
    mon.close("sample-size", z.mde, sgn * np.sqrt(zz * var(z.n_treated, z.n_control, T, s, rho)), rtol=1e-9, msg="MDE at the required sample")
    q = P.power(e, nt, nc, s, **kw)
    f = nt / (nt + nc)
    ex = var(f, 1 - f, T, s, rho) * zz / e ** 2
    mon.check("sample-size", ex * (1 - 1e-6) - 1e-6 <= q.required_n <= ex * (1 + 1e-6) + 2 + 2 / min(f, 1 - f) + 4, f"required_n with power: {q.required_n}, exact {ex}")
    # --- wrong direction
    if alt != "two-sided":
        mon.check("direction", P.sample_size(-e, s, treat_frac=tf, **kw).required_n >= MAX_SAMPLE_SIZE - 2 and P.power(-e, nt, nc, s, **kw).power < al, "effect in the untested direction")
    mon.check("direction", P.sample_size(0.0, s, treat_frac=tf, **kw).required_n >= MAX_SAMPLE_SIZE, "zero effect")
    # --- curves
    if maybe(rng, 0.5):
        c = P.power_curve(nt, nc, s, effect_sizes=None if maybe(rng) else effs, **kw)
        mon.close("curve", c["power"], [pw(alt, x, se, al) for x in c.effect_size], rtol=1e-8, atol=1e-11, msg="power curve")
        mon.check("curve", len(c) >= 2 and (len(c) == len(effs) or abs(c.effect_size).max() >= abs(m.mde)), "default curve does not reach the MDE")
        sizes = None if maybe(rng) else sorted(int(x) for x in rng.integers(8, 500, 4))
        c = P.sample_size_curve(e, s, sample_sizes=sizes, treat_frac=tf, **kw)
        mon.check("curve", len(c) >= 1 and (sizes is None or list(c.sample_size) == sizes), f"sample size curve has {len(c)} rows")
        mon.check("curve", sizes is not None or (c.sample_size.iloc[0] <= max(10, n) and c.sample_size.iloc[-1] >= n), f"default curve {c.sample_size.iloc[0]}..{c.sample_size.iloc[-1]} misses {n}")
        for x, p in zip(c.sample_size, c.power):
            lo = int(np.floor(x * tf - 1e-9))
            opts = [P.power(e, max(2, k), max(2, x - max(2, k)), s, **kw).power for k in (lo, lo + 1)]
            mon.check("curve", min(abs(p - o) for o in opts) < 1e-9, f"power {p} at n={x} is neither of {opts}")
    if alt == "two-sided":
        mon.close("curve", [compute_mde(nt, nc, s, power=tp, alpha=al, **kw), compute_power(e, nt, nc, s, alpha=al, **kw), compute_sample_size(e, s, power=tp, alpha=al, treat_frac=tf, **kw)],
                  [m.mde, q.power, n], rtol=1e-12, msg="convenience functions")


class Recorder:
    def __init__(self, rng, base, fail, extra=None):
        self.rng, self.base, self.fail, self.calls, self.extra = rng, base, fail, [], extra or {}

    def __call__(self, n_units, n_periods, treatment_effect, treatment_fraction, treatment_period, noise_sd, seed, **kw):
        if self.base == "did":
            d = generate_did_data(n_units=n_units, n_periods=n_periods, treatment_effect=treatment_effect, treatment_fraction=treatment_fraction,
                                  treatment_period=treatment_period, noise_sd=noise_sd, seed=int(seed), **kw)
        else:
            d = generate_staggered_data(n_units=n_units, n_periods=n_periods, cohort_periods=[2, 4], treatment_effect=treatment_effect, dynamic_effects=False,
                                        noise_sd=noise_sd, seed=int(seed), **kw)
        bad = bool(seed % 1000 < 1000 * self.fail)
        if bad:
            d["outcome"] = np.nan
        self.calls.append((float(treatment_effect), int(seed), bad, d.copy(), dict(n_units=n_units, n_periods=n_periods, frac=treatment_fraction, tp=treatment_period, sd=noise_sd, kw=kw)))
        return d


def hand_fit(name, est, d, tp, T):
    d = d.copy()
    if name == "did":
        r = est.fit(d, outcome="outcome", treatment="treated", time="post")
    elif name == "twfe":
        d["D"] = d.treated * d.post if "post" in d else d.treated
        r = est.fit(d, outcome="outcome", treatment="D", time="period", unit="unit")
    elif name == "mp":
        r = est.fit(d, outcome="outcome", treatment="treated", time="period", post_periods=list(range(tp, T)))
        return r.avg_att, r.avg_se, r.avg_p_value, r.avg_conf_int
    else:
        if "first_treat" not in d:
            d["first_treat"] = np.where(d.treated == 1, tp, 0)
        r = est.fit(d, outcome="outcome", unit="unit", time="period", first_treat="first_treat")
        return r.overall_att, r.overall_se, r.overall_p_value, r.overall_conf_int
    return r.att, r.se, r.p_value, r.conf_int


def k_sim(mon, rng, tier):
    name = pick(rng, "did", "did", "twfe", "mp", "cs", "sa")
    base = "did" if name in ("did", "mp") else pick(rng, "did", "did", "stag")
    ea = alpha_of(rng)
    mk = {"did": lambda: DifferenceInDifferences(alpha=ea), "twfe": lambda: TwoWayFixedEffects(alpha=ea), "mp": lambda: MultiPeriodDiD(alpha=ea),
          "cs": lambda: CallawaySantAnna(alpha=ea), "sa": lambda: SunAbraham(alpha=ea)}[name]
    T = 6 if base == "stag" else int(rng.integers(2, 6))
    tp = int(rng.integers(1, T))
    N = int(rng.integers(4, 14)) if tier == "quick" else int(rng.integers(4, 40))
    nu = int(rng.integers(16, 40))
    al = float(pick(rng, 0.05, 0.1, 0.3))
    eff = float(pick(rng, 0, 0.5, 1, 3))
    effs = None if maybe(rng, 0.6) else [0.0, eff, 2.5] if maybe(rng) else [0.25, 2.0]
    fail = float(pick(rng, 0, 0, 0.3))
    seed = int(rng.integers(1, 10 ** 6))
    sd = float(pick(rng, 1.0, 0.3))
    frac = float(pick(rng, 0.5, 0.3))
    g = Recorder(rng, base, fail)
    mon.describe(name=name, base=base, N=N, effs=effs, eff=eff, fail=fail, T=T, tp=tp)
    kw = dict(n_units=nu, n_periods=T, treatment_effect=eff, treatment_fraction=frac, treatment_period=tp, sigma=sd, n_simulations=N, alpha=al, effect_sizes=effs, seed=seed, progress=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = simulate_power(mk(), data_generator=g, **kw)
        except RuntimeError:
            for e in effs or [eff]:
                k = [c for c in g.calls if c[0] == e]
                if len(k) == N and all(c[2] for c in k):
                    return mon.saw("all-failed")
            raise
    want = effs if effs is not None else [eff]
    mon.check("sim", [c[0] for c in g.calls] == [e for e in want for _ in range(N)], f"{name}: effects simulated {[c[0] for c in g.calls]}")
    mon.check("sim", all(c[4] == dict(n_units=nu, n_periods=T, frac=frac, tp=tp, sd=sd, kw={}) for c in g.calls) and len({c[1] for c in g.calls}) == len(g.calls), f"{name}: generator arguments")
    prim = want.index(eff) if eff in want else len(want) - 1
    powers = []
    for i, e in enumerate(want):
        fits = [hand_fit(name, mk(), c[3], tp, T) for c in g.calls[i * N:(i + 1) * N] if not c[2]]
        rej = np.mean([f[2] < al for f in fits])
        powers.append(rej)
        if i != prim:
            continue
        est = np.array([f[0] for f in fits])
        n = len(est)
        mon.check("sim", r.n_simulations == n and r.true_effect == e and r.alpha == al and r.estimator_name == type(mk()).__name__, f"{name}: {r.n_simulations} runs of {n}, {r.true_effect}")
        mon.close("sim", [r.power, r.rejection_rate, r.mean_estimate, r.mean_se, r.coverage, r.bias],
                  [rej, rej, est.mean(), np.mean([f[1] for f in fits]), np.mean([f[3][0] <= e <= f[3][1] for f in fits]), est.mean() - e], rtol=1e-9, atol=1e-11, msg=f"{name}: summary of the simulations")
        if n > 1:
            mon.close("sim", [r.std_estimate, r.rmse], [est.std(ddof=1), np.sqrt((est.mean() - e) ** 2 + est.var(ddof=1))], rtol=1e-9, atol=1e-11, msg=f"{name}: spread")
            mon.check("sim", abs(est.mean() - e) < 6 * est.std(ddof=1) / np.sqrt(n) + 0.25 + 3 * est.std(ddof=1) * (n < 6), f"{name}: mean estimate {est.mean()} for a true effect of {e}")
        ps = np.sqrt(rej * (1 - rej) / n)
        mon.close("sim", [r.power_se, *r.power_ci], [ps, max(0, rej - 1.959964 * ps), min(1, rej + 1.959964 * ps)], rtol=1e-6, atol=1e-9, msg=f"{name}: power SE and interval")
        sim = r.simulation_results
        mon.close("sim", [[q["estimate"], q["se"], q["p_value"], q["rejected"]] for q in sim], [[f[0], f[1], f[2], f[2] < al] for f in fits], rtol=1e-9, atol=1e-12, msg=f"{name}: recorded simulations")
    mon.check("sim", list(r.effect_sizes) == list(want), "effect sizes echo")
    mon.close("sim", r.powers, powers, atol=1e-12, msg=f"{name}: power per effect")
    fr = r.power_curve_df()
    mon.check("sim", list(fr.effect_size) == list(want) and list(fr["power"]) == list(r.powers), "power curve frame")
    if base == "did" and fail == 0:
        a = simulate_power(mk(), **kw)                        # the default generator, twice with the same seed
        b = simulate_power(mk(), **kw)
        mon.check("sim-seed", a.to_dict() == b.to_dict() and a.simulation_results == b.simulation_results, f"{name}: same seed, different simulations")
        mon.close("sim-seed", [a.power, a.mean_estimate, a.coverage], [r.power, r.mean_estimate, r.coverage], rtol=1e-12, msg=f"{name}: default generator")
        c = simulate_power(mk(), **{**kw, "seed": seed + 1})
        mon.check("sim-seed", c.mean_estimate != a.mean_estimate, f"{name}: different seed, same simulations")
    mon.state("sim", name, base, T, effs is None, fail > 0)


def k_edge(mon, rng, tier):
    R = lambda f, m: mon.raises("refuses", (ValueError,), f, m)
    bad = float(pick(rng, 0, 1, -0.1, 1.5))
    R(lambda: PowerAnalysis(alpha=bad), f"alpha {bad}")
    R(lambda: PowerAnalysis(power=bad), f"power {bad}")
    R(lambda: PowerAnalysis(alternative="both"), "alternative")
    P = PowerAnalysis(alternative=pick(rng, "two-sided", "greater"))
    R(lambda: P.sample_size(0.5, 1.0, treat_frac=bad), f"treat_frac {bad}")
    n = int(pick(rng, 0, -5))
    R(lambda: P.mde(n, 50, 1.0), f"{n} treated")
    R(lambda: P.power(0.5, 50, n, 1.0), f"{n} controls")
    R(lambda: P.power(0.5, 50, 50, -1.0), "negative noise")
    R(lambda: P.mde(50, 50, 1.0, n_pre=2, n_post=3, rho=-0.9), "impossible correlation")
    mon.state("edge", bad, n)


KINDS = {"analytic": (k_analytic, 300, 6000), "sim": (k_sim, 40, 300), "edge": (k_edge, 8, 60)}
