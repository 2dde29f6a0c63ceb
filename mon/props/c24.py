"""C24: parameters round-trip; configuration errors are rejected."""
import copy
import inspect
import warnings
import numpy as np

from mon import zoo, gen
from mon.gen import pick, maybe
import diff_diff as dd
from diff_diff.linalg import solve_ols, LinearRegression
from diff_diff.utils import wild_bootstrap_se
from diff_diff.diagnostics import run_placebo_test
from diff_diff.staggered_bootstrap import _generate_bootstrap_weights_batch

RULE = ("every estimator class x random parameter settings: clones and in-place updates compared with direct construction (parameters and results); random update sequences; unknown names; values outside the documented choices at construction, update and in function "
        "arguments; options switched one at a time; convenience functions; non-trivial = distinct (class, parameter, operation) state")
NOTE = ("Results are flattened to every leaf and compared bit for bit. An update that is refused must leave every parameter as it was. An option that is switched in a design where it matters by definition (heteroskedastic data for robust, grouped "
        "errors for cluster, ...) must show up in the results.")
REQUIRED = {"clone": 200, "update": 250, "sequence": 400, "unknown": 250, "invalid": 500, "choice": 60, "live": 150, "wrapper": 60, "rank-action": 40}

CLS = {"did": dd.DifferenceInDifferences, "twfe": dd.TwoWayFixedEffects, "mp": dd.MultiPeriodDiD, "cs": dd.CallawaySantAnna, "sa": dd.SunAbraham, "bacon": dd.BaconDecomposition,
       "sdid": dd.SyntheticDiD, "ddd": dd.TripleDifference, "trop": dd.TROP, "honest": dd.HonestDiD, "pretrends": dd.PreTrendsPower}
INF = ("analytical", "wild_bootstrap")
WTS = ("rademacher", "mammen", "webb")
ACT = ("warn", "error", "silent")
CTL = ("never_treated", "not_yet_treated")
_LIN = {"robust": (True, False), "cluster": (None, "cl"), "alpha": (.05, .1, .01), "inference": INF, "n_bootstrap": (39, 99), "bootstrap_weights": WTS, "seed": (None, 3, 4), "rank_deficient_action": ACT}
GOOD = {
    "did": _LIN, "twfe": _LIN, "mp": _LIN,
    "cs": {"control_group": CTL, "anticipation": (0, 1), "estimation_method": ("dr", "ipw", "reg"), "alpha": (.05, .2), "n_bootstrap": (0, 20), "bootstrap_weights": WTS, "seed": (1, 2), "rank_deficient_action": ACT,
           "base_period": ("varying", "universal")},
    "sa": {"control_group": CTL, "anticipation": (0, 1), "alpha": (.05, .2), "cluster": (None, "cl"), "n_bootstrap": (0, 10), "seed": (1, 2), "rank_deficient_action": ACT},
    "bacon": {"weights": ("exact", "approximate")},
    "sdid": {"lambda_reg": (0.0, .5), "zeta": (1.0, .3), "alpha": (.05, .2), "variance_method": ("bootstrap", "placebo"), "n_bootstrap": (8, 15), "seed": (1, 2)},
    "ddd": {"estimation_method": ("dr", "reg", "ipw"), "robust": (True, False), "cluster": (None, "cl"), "alpha": (.05, .2), "pscore_trim": (.01, .05), "rank_deficient_action": ACT},
    "trop": {"method": ("twostep", "joint"), "lambda_time_grid": ([0.0], [.3]), "lambda_unit_grid": ([0.0], [.4], [.0, .4]), "lambda_nn_grid": ([1e6], [1.0]), "max_iter": (50, 100), "tol": (1e-6, 1e-4), "alpha": (.05, .2),
             "variance_method": ("bootstrap", "jackknife"), "n_bootstrap": (3, 4), "max_loocv_samples": (3, 5), "seed": (1, 2)},
    "honest": {"method": ("smoothness", "relative_magnitude", "combined"), "M": (0.0, .5, 1.0), "alpha": (.05, .2), "l_vec": (None,)},
    "pretrends": {"alpha": (.05, .2), "power": (.8, .5), "violation_type": ("linear", "constant", "last_period"), "violation_weights": (None,)},
}
WORDS = ("bogus", "", "DR", "Never_Treated", "never", "rademacher ", "HC2", "exactly", "wild", "boot", "universal_", "lin")
BADNUM = {"alpha": (0, 1, -.1, 1.5, 5, float("nan"), float("inf"), -1e-9), "power": (0, 1, -.2, 1.2, float("nan")), "n_bootstrap": (-1, -100, 2.5, float("nan")), "anticipation": (-1, .5, float("nan")),
          "pscore_trim": (-.01, .5, .9, float("nan")), "M": (-.1, -5, float("nan")), "lambda_reg": (-1.0, float("nan")), "zeta": (-1.0, float("nan"))}


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def eq(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        return a is not None and b is not None and np.array_equal(np.asarray(a), np.asarray(b))
    return a == b and type(a) is type(b)


def diff(p, q):
    return {k: (p.get(k, "-"), q.get(k, "-")) for k in set(p) | set(q) if not (k in p and k in q and eq(p[k], q[k]))}


def setting(rng, kind):
    p = {k: copy.deepcopy(pick(rng, *v)) for k, v in GOOD[kind].items() if maybe(rng, .6)}
    if kind == "pretrends" and maybe(rng, .25):
        p.update(violation_type="custom", violation_weights=np.array([float(x) for x in rng.uniform(.2, 2, 2)]))
    if kind == "honest" and maybe(rng, .25):
        p["l_vec"] = np.array([float(x) for x in rng.uniform(.2, 1, 2)])
    return p


def alias(kind, key):
    return {"bootstrap_weights", "bootstrap_weight_type"} if kind == "cs" and key in ("bootstrap_weights", "bootstrap_weight_type") else {key}


def runner(rng, kind):
    """A function running one analysis with a given estimator object of this kind, and that kind's usable parameters."""
    if kind in ("honest", "pretrends"):
        c, meta = zoo._pre(rng, 1.0, {}, ("mp", "cs") if kind == "honest" else ("mp", "cs", "sa"))
        base = c.fit()
        kw = {}
        if kind == "pretrends" and c.kind == "mp":
            kw["pre_periods"] = [t for t in meta["times"][1:] if t < meta["cohorts"][0]]
        return lambda e: quiet(lambda: e.fit(base, **kw)), c
    c = zoo.ZOO[kind](rng, "quick")
    return lambda e: c.fit(est=e), c


def usable(rng, kind, c):
    p = setting(rng, kind)
    if kind in ("cs", "sa"):
        p["anticipation"] = c.params.get("anticipation", 0)
    p.pop("inference" if maybe(rng, .5) else "", None)
    for k in ("violation_weights", "l_vec"):
        p.pop(k, None)
    if p.get("violation_type") == "custom":
        p.pop("violation_type")
    p.pop("rank_deficient_action", None)
    if kind in ("did", "twfe", "mp", "cs", "sa", "sdid", "trop") and "seed" in GOOD[kind]:
        p["seed"] = 5
    if kind == "trop":
        p = {**c.params, **p}
    return p


def attempt(f):
    try:
        return zoo.flat(f()), None
    except Exception as e:  # noqa: BLE001
        return None, type(e).__name__


def k_clone(mon, rng, tier):
    kind = pick(rng, *CLS)
    cls = CLS[kind]
    run, c = runner(rng, kind)
    p = usable(rng, kind, c)
    mon.describe(cls=cls.__name__, params=p)
    est = quiet(lambda: cls(**copy.deepcopy(p)))
    q = est.get_params()
    mon.check("clone", not {k: v for k, v in p.items() if not eq(v, q.get(k, "-"))}, f"{cls.__name__}({p}): reads back {q}")
    mon.check("clone", set(q) == set(inspect.signature(cls.__init__).parameters) - {"self"}, f"{cls.__name__}: get_params names {sorted(q)} are not the constructor's")
    two = quiet(lambda: cls(**copy.deepcopy(q)))
    mon.check("clone", not diff(q, two.get_params()), f"{cls.__name__}(**get_params()): {diff(q, two.get_params())}")
    a, ea = attempt(lambda: run(est))
    b, eb = attempt(lambda: run(two))
    mon.check("clone", ea == eb and (ea or not zoo.same(a, b)), f"{cls.__name__}({p}): clone gives other results {ea} {eb} {zoo.same(a, b) if a and b else ''}")
    mon.check("clone", not diff(q, est.get_params()), f"{cls.__name__}: fitting changed the parameters {diff(q, est.get_params())}")
    # update another object, configured differently and possibly fitted already
    other = quiet(lambda: cls(**usable(rng, kind, c)))
    was = maybe(rng)
    if was:
        attempt(lambda: run(other))
    full = maybe(rng)
    r = quiet(lambda: other.set_params(**copy.deepcopy(q)))
    mon.check("update", r is other, f"{cls.__name__}.set_params does not return the estimator")
    mon.check("update", not diff(q, other.get_params()), f"{cls.__name__}.set_params(**params): {diff(q, other.get_params())}")
    d, ed = attempt(lambda: run(other))
    mon.check("update", ea == ed and (ea or not zoo.same(a, d)), f"{cls.__name__}: updated to {p} (fitted before: {was}) gives other results {ea} {ed} {zoo.same(a, d) if a and d else ''}")
    mon.state(kind, was, ea is None, full)


def k_sequence(mon, rng, tier):
    kind = pick(rng, *CLS)
    cls = CLS[kind]
    est = quiet(lambda: cls(**setting(rng, kind)))
    for _ in range(4):
        k = pick(rng, *GOOD[kind])
        v = copy.deepcopy(pick(rng, *GOOD[kind][k]))
        if kind == "pretrends" and k == "violation_weights" and est.get_params()["violation_type"] == "custom":
            continue
        before = copy.deepcopy(est.get_params())
        quiet(lambda: est.set_params(**{k: v}))
        after = est.get_params()
        mon.check("sequence", eq(after[k], v) and set(diff(before, after)) <= alias(kind, k), f"{cls.__name__}.set_params({k}={v!r}): {diff(before, after)}")
        n = pick(rng, *[x for x in GOOD[kind]])
        mon.check("sequence", not diff(after, quiet(lambda: cls(**after)).get_params()), f"{cls.__name__}: {n}: parameters {after} do not rebuild the object")
        mon.state(kind, k)
    if kind == "cs" and maybe(rng, .7):
        w = pick(rng, *WTS)
        quiet(lambda: est.set_params(**{pick(rng, "bootstrap_weights", "bootstrap_weight_type"): w}))
        q = est.get_params()
        mon.check("sequence", q["bootstrap_weights"] == w == q["bootstrap_weight_type"], f"CallawaySantAnna: weight type set to {w}, reads {q}")
    if kind == "mp" or kind == "twfe":
        mon.state(kind, "inherited")


NAMES = ("bogus", "Alpha", "alpha_", "results_", "is_fitted_", "fit", "_vcov", "summary", "__class__", "n_boot", "random_state", "get_params", "_validate_params", "weight", "level")


def k_unknown(mon, rng, tier):
    kind = pick(rng, *CLS)
    cls = CLS[kind]
    est = quiet(lambda: cls(**setting(rng, kind)))
    known = set(est.get_params())
    pool = list(NAMES) + [a for a in vars(est) if a not in known] + [k for o in GOOD.values() for k in o]
    for _ in range(3):
        name = pick(rng, *[n for n in pool if n not in known])
        good = {k: pick(rng, *v) for k, v in GOOD[kind].items() if maybe(rng, .3) and k not in ("violation_type", "violation_weights", "l_vec")}
        items = list(good.items()) + [(name, pick(rng, 1, None, "x"))]
        rng.shuffle(items)
        args = {str(k): v for k, v in items}
        before, held = copy.deepcopy(est.get_params()), dict(vars(est))
        mon.raises("unknown", (TypeError, ValueError), lambda: quiet(lambda: cls(**args)), f"{cls.__name__}({args}) was accepted")
        mon.raises("unknown", (TypeError, ValueError, AttributeError), lambda: quiet(lambda: est.set_params(**args)), f"{cls.__name__}().set_params({args}) was accepted")
        mon.check("unknown", not diff(before, est.get_params()) and set(vars(est)) == set(held), f"{cls.__name__}: refused update {args} still changed {diff(before, est.get_params())}")
        mon.state(kind, name)


def k_invalid(mon, rng, tier):
    kind = pick(rng, *CLS)
    cls = CLS[kind]
    est = quiet(lambda: cls(**setting(rng, kind)))
    for k in GOOD[kind]:
        vals = BADNUM.get(k)
        if vals is None and all(isinstance(v, str) for v in GOOD[kind][k]):
            vals = [w for w in WORDS + INF + WTS + ACT + CTL + ("dr", "reg", "bootstrap", "twostep", "exact", "linear") if w not in GOOD[kind][k] and w not in ("custom",)] + [1, True, 3.5]
        if vals is None:
            continue
        v = pick(rng, *vals)
        before = copy.deepcopy(est.get_params())
        mon.raises("invalid", (TypeError, ValueError), lambda: quiet(lambda: cls(**{k: v})), f"{cls.__name__}({k}={v!r}) was accepted")
        good = {a: pick(rng, *b) for a, b in GOOD[kind].items() if a != k and maybe(rng, .2) and a not in ("violation_type", "violation_weights", "l_vec")}
        mon.raises("invalid", (TypeError, ValueError), lambda: quiet(lambda: est.set_params(**good, **{k: v})), f"{cls.__name__}().set_params({good}, {k}={v!r}) was accepted")
        mon.check("invalid", not diff(before, est.get_params()), f"{cls.__name__}: refused update {k}={v!r} still changed {diff(before, est.get_params())}")
        mon.state(kind, k, str(v)[:10])
    if kind == "pretrends":
        mon.raises("invalid", (TypeError, ValueError), lambda: cls(violation_type="custom"), "PreTrendsPower custom without weights accepted")
    if kind in ("honest", "pretrends"):
        run, c = runner(rng, kind)
        mon.raises("invalid", (TypeError, ValueError), lambda: quiet(lambda: est.fit("not a result")), f"{cls.__name__}.fit('text') was accepted")


def k_choice(mon, rng, tier):
    """Documented choices taken by functions and by fit."""
    w = str(pick(rng, "aggregate", "wild", "solve", "balance", "power", "placebo", "weights", "dataset", "decompose", "plot", "linreg", "honestM"))
    bad = pick(rng, *WORDS)
    mon.describe(where=w, value=bad)
    ok = (TypeError, ValueError, KeyError)
    r = np.random.default_rng(int(rng.integers(1e6)))
    X = np.column_stack([np.ones(30), r.normal(size=(30, 2))])
    y = r.normal(size=30)
    if w == "aggregate":
        c = zoo.cs(rng, boot=False)
        c.opts["aggregate"] = bad
        f = c.fit
    elif w == "wild":
        f = lambda: wild_bootstrap_se(X, y, y, r.integers(0, 5, 30), 1, n_bootstrap=9, weight_type=bad)
    elif w == "solve":
        f = lambda: solve_ols(X, y, rank_deficient_action=bad)
    elif w == "linreg":
        f = lambda: LinearRegression(rank_deficient_action=bad).fit(X, y)
    elif w == "balance":
        d, _ = gen.panel(rng, drop=.1)
        f = lambda: dd.balance_panel(d, "unit", "time", method=bad)
    elif w == "power":
        f = lambda: dd.PowerAnalysis(alternative=bad)
        n = pick(rng, 0, 1, -.5, 1.5, float("nan"))
        mon.raises("choice", ok, lambda: dd.PowerAnalysis(alpha=n), f"PowerAnalysis(alpha={n}) was accepted")
        mon.raises("choice", ok, lambda: dd.PowerAnalysis(power=n), f"PowerAnalysis(power={n}) was accepted")
        mon.raises("choice", ok, lambda: dd.compute_mde(10, 10, 1.0, alpha=n), f"compute_mde(alpha={n}) was accepted")
    elif w == "placebo":
        d, meta = gen.block_panel(rng)
        f = lambda: run_placebo_test(d, "y", "ever", "post", unit="unit", test_type=bad, n_permutations=5)
    elif w == "weights":
        f = lambda: _generate_bootstrap_weights_batch(4, 5, bad, r)
    elif w == "dataset":
        f = lambda: dd.load_dataset(bad)
    elif w == "decompose":
        d, _ = zoo.stag(rng)
        f = lambda: pick(rng, lambda: dd.TwoWayFixedEffects().decompose(d, "y", "unit", "time", "first_treat", weights=bad), lambda: dd.bacon_decompose(d, "y", "unit", "time", "first_treat", weights=bad))()
    elif w == "plot":
        c = zoo.bacon(rng)
        res = c.fit()
        f = lambda: dd.plot_bacon(res, plot_type=bad, show=False)
    else:
        run, c = runner(rng, "honest")
        res = c.fit()
        m = pick(rng, -.1, -3.0, float("nan"))
        f = lambda: quiet(lambda: dd.HonestDiD().fit(res, M=m))
    mon.raises("choice", ok, lambda: quiet(f), f"{w}: {bad!r} was accepted")
    mon.state("choice", w)


def k_live(mon, rng, tier):
    """Options that must matter, switched one at a time; and only there."""
    kind = str(pick(rng, "did", "did", "twfe", "mp", "cs", "cs", "sa", "bacon", "sdid", "ddd", "ddd", "trop"))
    c = zoo.ZOO[kind](rng, "quick")
    base = dict(c.params)
    swaps = []                                     # (changes, leaves expected to differ (any), leaves expected equal (all))
    pt = {"did": ".att", "twfe": ".att", "mp": ".avg_att", "cs": ".overall_att", "sa": ".overall_att", "sdid": ".att", "ddd": ".att", "trop": ".att"}.get(kind)
    al = .3 if base.get("alpha") != .3 else .2
    if kind != "bacon":
        swaps.append(({"alpha": al}, ("conf_int", "ci"), (pt, ".se", ".overall_se", ".avg_se", ".p_value", ".overall_p_value")))
    if kind in ("did", "twfe", "mp"):
        an = {"inference": "analytical"}
        if kind != "twfe":
            swaps.append(({**an, "cluster": None}, None, None))
            swaps.append(({**an, "cluster": "cl"}, ("se",), (pt,), {**an, "cluster": None}))
            swaps.append(({**an, "cluster": None, "robust": True}, ("se",), (pt,), {**an, "cluster": None, "robust": False}))
        else:
            swaps.append(({**an, "cluster": "cl"}, ("se",), (pt,), {**an, "cluster": None}))
        if kind != "mp":
            wb = {"inference": "wild_bootstrap", "cluster": "cl", "n_bootstrap": 60, "seed": 5, "bootstrap_weights": "rademacher"}
            swaps.append((wb, ("se",), (pt,), {**wb, "inference": "analytical"}))
            swaps.append(({**wb, "seed": 6}, ("se",), (pt,), wb))
            swaps.append(({**wb, "n_bootstrap": 80}, ("se",), (pt,), wb))
            swaps.append(({**wb, "bootstrap_weights": "webb"}, ("se",), (pt,), wb))
            swaps.append(({**wb, "bootstrap_weights": "mammen"}, ("se",), (pt,), {**wb, "bootstrap_weights": "webb"}))
    if kind == "cs":
        nb = {"n_bootstrap": 40, "seed": 5, "bootstrap_weights": "rademacher"}
        swaps.append((nb, ("se",), (pt,), {"n_bootstrap": 0}))
        for w in ("mammen", "webb"):
            swaps.append(({**nb, "bootstrap_weights": w}, ("se",), (pt,), nb))
        swaps.append(({**nb, "n_bootstrap": 60}, ("se",), (pt,), nb))
    if kind == "sa":
        swaps.append(({"cluster": "cl", "n_bootstrap": 0}, ("se",), (pt,), {"cluster": None, "n_bootstrap": 0}))
        swaps.append(({"n_bootstrap": 12, "seed": 5}, ("se",), (pt,), {"n_bootstrap": 0}))
        swaps.append(({"n_bootstrap": 12, "seed": 6}, ("se",), (pt,), {"n_bootstrap": 12, "seed": 5}))
    if kind == "bacon":
        swaps.append(({"weights": "exact"}, ("weight",), (), {"weights": "approximate"}))
    if kind == "sdid":
        swaps.append(({"lambda_reg": 50.0}, ("unit_weights",), (), {"lambda_reg": 0.0}))
        swaps.append(({"zeta": 1e3}, ("time_weights",), (), {"zeta": 1e-3}))
        swaps.append(({"n_bootstrap": 20, "seed": 5, "variance_method": "bootstrap"}, ("se",), (pt,), {"n_bootstrap": 20, "seed": 6, "variance_method": "bootstrap"}))
        swaps.append(({"n_bootstrap": 20, "seed": 5, "variance_method": "bootstrap"}, ("se",), (pt,), {"n_bootstrap": 30, "seed": 5, "variance_method": "bootstrap"}))
        swaps.append(({"seed": 5, "variance_method": "bootstrap"}, ("se",), (pt,), {"seed": 5, "variance_method": "placebo"}))
    if kind == "ddd":
        m = "reg"
        swaps.append(({"estimation_method": m, "cluster": "cl"}, ("se",), (pt,), {"estimation_method": m, "cluster": None}))
        swaps.append(({"estimation_method": m, "cluster": None, "robust": True}, ("se",), (pt,), {"estimation_method": m, "cluster": None, "robust": False}))
        if c.cols.get("covariates"):
            a, b = pick(rng, ("dr", "reg"), ("reg", "ipw"), ("ipw", "dr"))
            swaps.append(({"estimation_method": a, "cluster": None}, (pt,), (), {"estimation_method": b, "cluster": None}))
            swaps.append(({"estimation_method": "ipw", "cluster": None, "pscore_trim": .3}, (pt, "se", "pscore"), (), {"estimation_method": "ipw", "cluster": None, "pscore_trim": .001}))
    if kind == "trop":
        swaps.append(({"lambda_time_grid": [3.0]}, (pt,), (), {"lambda_time_grid": [0.0]}))
        swaps.append(({"lambda_unit_grid": [1.5]}, (pt,), (), {"lambda_unit_grid": [0.0]}))
        swaps.append(({"variance_method": "bootstrap", "seed": 5}, ("se",), (pt,), {"variance_method": "jackknife", "seed": 5}))
    s = pick(rng, *swaps)
    new, moved, still = s[0], s[1], s[2]
    if moved is None:
        return
    old = s[3] if len(s) > 3 else {k: base.get(k) for k in new}
    mon.describe(kind=kind, base=base, new=new, old=old)
    ca, cb = c.with_(params={**base, **old}), c.with_(params={**base, **new})
    (fa, ea), (fb, eb) = attempt(ca.fit), attempt(cb.fit)
    if ea or eb:
        mon.check("live", ea is None or eb is None or ea == eb, f"{kind}: {old} -> {ea}; {new} -> {eb}")
        return
    hit = lambda k: any(w in k for w in moved)
    num = [k for k in fa if k in fb and hit(k) and isinstance(fa[k], float) and np.isfinite(fa[k]) and np.isfinite(fb[k])]
    extra = [k for k in set(fa) ^ set(fb) if hit(k)]
    if not num and not extra:
        return
    if kind == "sdid" and (fa.get(".se") == 0 or fb.get(".se") == 0):
        return
    if kind == "bacon" and len(fa) < 40:
        return
    change = max([abs(fa[k] - fb[k]) / (abs(fa[k]) + abs(fb[k]) + 1e-300) for k in num] or [1.0])
    wk = [k for k in new if new[k] != old.get(k, base.get(k))]
    key = f"{kind}:{','.join(wk)}"
    equal = "robust" in new and kind in ("did", "mp", "ddd") and c.df.groupby([c.cols[k] for k in ("treatment", "time", "group", "partition") if k in c.cols]).size().nunique() == 1
    soft = equal or kind == "bacon" or (kind == "ddd" and "pscore_trim" in new) or kind == "sdid" and "se" not in moved
    if not soft:
        mon.check("live", change > 1e-10, f"{kind} base={base}: switching {old} to {new} changes nothing in {moved} (options {c.opts})")
    for k in still:
        if k in fa and k in fb:
            mon.check("live", fa[k] == fb[k] or (fa[k] != fa[k] and fb[k] != fb[k]) or abs(fa[k] - fb[k]) <= 1e-12 * (1 + abs(fa[k])), f"{kind}: switching {old} to {new} changed {k}: {fa[k]} vs {fb[k]}")
    mon.state("live", key)


def k_cscluster(mon, rng, tier):
    """CallawaySantAnna's cluster column, with clusters that group units."""
    c = zoo.cs(rng)
    us = sorted(c.df["unit"].unique())
    g = dict(zip(us, rng.integers(0, 6, len(us))))
    c.df = c.df.assign(grp=[int(g[u]) for u in c.df["unit"]])
    a = zoo.flat(c.fit())
    b = zoo.flat(c.with_(params={**c.params, "cluster": "grp"}).fit())
    mon.describe(params=c.params)
    mon.check("live", a[".overall_att"] == b[".overall_att"], f"CallawaySantAnna: cluster changed the estimate {a['.overall_att']} to {b['.overall_att']}")
    mon.check("live", a[".overall_se"] != b[".overall_se"] or not np.isfinite(a[".overall_se"]), f"CallawaySantAnna{c.params}: cluster='grp' leaves the standard error at {a['.overall_se']}", key="cs-cluster-ignored")
    mon.state("cs-cluster", c.seeded)


def k_rank(mon, rng, tier):
    """rank_deficient_action: warn, error, silent."""
    kind = str(pick(rng, "did", "twfe", "mp", "cs", "sa", "ddd"))
    c = zoo.ZOO[kind](rng, "quick")
    base = {**c.params, "n_bootstrap": 0} if kind in ("cs", "sa") else {**c.params, "inference": "analytical"} if kind in ("did", "twfe", "mp") else dict(c.params)
    if "formula" in c.tag:
        return
    if kind in ("cs", "ddd"):
        base["estimation_method"] = "reg"
    if kind == "cs":
        base["control_group"] = "never_treated"
    z = "x1" if "x1" in c.df else "z1"
    df = c.df.assign(dup=c.df[z] * 2.0)
    if kind == "sa":
        return
    c.df = df
    c.cols["covariates"] = [z, "dup"]
    got = {}
    for a in ACT:
        e = c.with_(params={**base, "rank_deficient_action": a})
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = e.cls(**e.params).fit(df, **e.kwargs())
                got[a] = ("ok", zoo.flat(r), [str(x.message) for x in w if "ank" in str(x.message) or "linear" in str(x.message).lower() or "collinear" in str(x.message).lower()])
            except ValueError as ex:
                got[a] = ("error", str(ex), [])
    mon.describe(kind=kind, base=base)
    m = f"{kind} {base} covariates={c.cols['covariates']}"
    mon.check("rank-action", got["error"][0] == "error", f"{m}: 'error' did not raise on a duplicated covariate")
    mon.check("rank-action", got["warn"][0] == "ok" and got["warn"][2], f"{m}: 'warn' gave {got['warn'][0]} with warnings {got['warn'][2]}")
    mon.check("rank-action", got["silent"][0] == "ok" and not got["silent"][2], f"{m}: 'silent' gave {got['silent'][0]} with warnings {got['silent'][2]}")
    if got["warn"][0] == got["silent"][0] == "ok":
        mon.check("rank-action", not zoo.same(got["warn"][1], got["silent"][1]), f"{m}: warn and silent differ {zoo.same(got['warn'][1], got['silent'][1])}")
    mon.state("rank", kind)


def k_wrapper(mon, rng, tier):
    """Convenience functions equal the class they wrap, for every argument."""
    w = str(pick(rng, "ddd", "trop", "bacon", "decompose", "honest", "pretrends", "mdv", "mde", "power", "n"))
    mon.describe(function=w)
    if w in ("ddd", "trop", "bacon", "decompose"):
        c = zoo.ZOO[{"decompose": "bacon"}.get(w, w)](rng, "quick")
        f = {"ddd": dd.triple_difference, "trop": dd.trop, "bacon": dd.bacon_decompose, "decompose": dd.TwoWayFixedEffects().decompose}[w]
        p = dict(c.params)
        if w == "ddd":
            p.update(rank_deficient_action=pick(rng, *ACT))
        a = zoo.flat(quiet(lambda: f(c.df, **c.kwargs(), **p)))
        b = zoo.flat(c.fit())
        mon.check("wrapper", not zoo.same(a, b), f"{w}({p}) differs from the class: {zoo.same(a, b)}")
    elif w in ("honest", "pretrends", "mdv"):
        run, c = runner(rng, "honest" if w == "honest" else "pretrends")
        al = float(pick(rng, .05, .1, .2))
        if w == "honest":
            base = c.fit()
            m, M = pick(rng, *GOOD["honest"]["method"]), float(pick(rng, 0., .5, 2.))
            a = zoo.flat(quiet(lambda: dd.compute_honest_did(base, method=m, M=M, alpha=al)))
            b = zoo.flat(quiet(lambda: dd.HonestDiD(method=m, M=M, alpha=al).fit(base)))
        else:
            tp, vt = float(pick(rng, .5, .8, .9)), pick(rng, "linear", "constant", "last_period")
            e = dd.PreTrendsPower(alpha=al, power=tp, violation_type=vt)
            base = c.fit()
            kw = {}
            if c.kind == "mp":
                pp = [t for t in c.opts["post_periods"]]
                kw = {"pre_periods": pp[:max(1, len(pp) - 2)]}
            r = quiet(lambda: e.fit(base, **kw))
            if w == "mdv":
                a = {"mdv": float(quiet(lambda: dd.compute_mdv(base, alpha=al, target_power=tp, violation_type=vt, **kw)))}
                b = {"mdv": float(r.mdv)}
            else:
                M = pick(rng, None, .7, 2.0)
                a = zoo.flat(quiet(lambda: dd.compute_pretrends_power(base, M=M, alpha=al, target_power=tp, violation_type=vt, **kw)))
                b = zoo.flat(quiet(lambda: e.fit(base, M=M, **kw)))
        mon.check("wrapper", not zoo.same(a, b), f"{w}: function and class differ {zoo.same(a, b)}")
    else:
        al, pw, sg, rho = float(pick(rng, .05, .1)), float(pick(rng, .8, .9)), float(rng.uniform(.5, 3)), float(rng.uniform(0, .8))
        npre, npost, n1, n0, es = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(5, 60)), int(rng.integers(5, 60)), float(rng.uniform(.3, 2))
        pa = dd.PowerAnalysis(alpha=al, power=pw)
        kw = dict(n_pre=npre, n_post=npost, rho=rho)
        if w == "mde":
            a, b = dd.compute_mde(n1, n0, sg, power=pw, alpha=al, **kw), pa.mde(n1, n0, sg, **kw).mde
        elif w == "power":
            a, b = dd.compute_power(es, n1, n0, sg, alpha=al, **kw), pa.power(es, n1, n0, sg, **kw).power
        else:
            tf = float(pick(rng, .5, .3, .7))
            a, b = dd.compute_sample_size(es, sg, power=pw, alpha=al, treat_frac=tf, **kw), pa.sample_size(es, sg, treat_frac=tf, **kw).required_n
        mon.check("wrapper", a == b, f"{w}: function {a} vs class {b}")
    mon.state("wrapper", w)


KINDS = {"clone": (k_clone, 110, 1500), "sequence": (k_sequence, 110, 1500), "unknown": (k_unknown, 60, 800), "invalid": (k_invalid, 90, 1200), "choice": (k_choice, 110, 900),
         "live": (k_live, 260, 3500), "cs-cluster": (k_cscluster, 6, 60), "rank": (k_rank, 90, 1000), "wrapper": (k_wrapper, 90, 1200)}
