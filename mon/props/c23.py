"""C23: same seed, same answer; fits are isolated from each other."""
import json
import os
import random
import subprocess
import sys
import threading
import hashlib
import numpy as np

from mon import zoo, gen
from mon.gen import pick, maybe, alpha_of
import diff_diff as dd
from diff_diff.utils import wild_bootstrap_se
from diff_diff.diagnostics import run_placebo_test, run_all_placebo_tests

RULE = ("every estimator and diagnostic: repeated fits under hostile global random states, other seeds, no seed; random histories of fits (good, other data, failing data, parameter changes and back, views, predictions) on shared and separate objects; "
        "concurrent fits in threads with forced switching; the same fits in fresh processes with other hash seeds; non-trivial = distinct (family, history shape) state")
NOTE = ("Results and the estimators' own fitted attributes are flattened to every leaf and compared bit for bit with a fresh object's; numpy's and Python's global generators are compared before and after; results returned earlier are fingerprinted again at the end "
        "of each history.")
REQUIRED = {"repeat": 250, "global-state": 400, "other-seed": 60, "unseeded": 15, "history": 500, "attributes": 300, "frozen": 250, "threads": 60, "process": 6, "chain": 60}


def gstate():
    s = np.random.get_state()
    return hashlib.sha1(repr(random.getstate()).encode() + s[1].tobytes() + repr(s[2:]).encode()).hexdigest()


def scramble(rng):
    np.random.seed(int(rng.integers(2 ** 31)))
    random.seed(int(rng.integers(2 ** 31)))


def watched(mon, rng, f, tag):
    scramble(rng)
    g = gstate()
    r = f()
    mon.check("global-state", gstate() == g, f"{tag}: the global random state changed")
    return r


def rnd(k):
    """Leaves that come out of random draws."""
    return any(w in k for w in ("se", "ci", "p_value", "distribution", "placebo", "conf_int"))


def extras(rng):
    """Seeded functions outside the estimator zoo."""
    w = pick(rng, "power", "power-size", "wild", "data", "placebo-all", "placebo-run")
    seed = int(rng.integers(1e6))
    if w == "power":
        n = int(rng.integers(10, 24))
        return w, lambda s: dd.simulate_power(dd.DifferenceInDifferences(), n_units=n, n_periods=4, treatment_period=2, n_simulations=5, seed=s, progress=False), seed
    if w == "power-size":
        return w, lambda s: dd.simulate_power(dd.DifferenceInDifferences(), n_units=16, n_simulations=4, effect_sizes=[1.0, 2.0], seed=s, progress=False), seed
    if w == "wild":
        r = np.random.default_rng(seed)
        n = 60
        X = np.column_stack([np.ones(n), r.normal(size=(n, 2))])
        y = X @ [1, 2, 3] + r.normal(size=n)
        b = np.linalg.lstsq(X, y, rcond=None)[0]
        cl = r.integers(0, 9, n)
        wt = pick(rng, "rademacher", "mammen", "webb")
        return w, lambda s: wild_bootstrap_se(X, y, y - X @ b, cl, coefficient_index=1, n_bootstrap=40, weight_type=wt, seed=s), seed
    if w == "data":
        f = pick(rng, dd.generate_did_data, dd.generate_staggered_data, dd.generate_factor_data, dd.generate_ddd_data, dd.generate_panel_data, dd.generate_event_study_data)
        return w, lambda s: f(seed=s), seed
    d, meta = gen.block_panel(rng, n_units=14, n_periods=6, n_treated=3, min_pre=3)
    post = [t for t in meta["times"] if t >= meta["cohorts"][0]]
    if w == "placebo-run":
        return w, lambda s: run_placebo_test(d, "y", "ever", "post", unit="unit", test_type="permutation", n_permutations=12, seed=s), seed
    pre = [t for t in meta["times"] if t not in post]
    return w, lambda s: run_all_placebo_tests(d, "y", "ever", "time", "unit", pre_periods=pre, post_periods=post, n_permutations=8, seed=s), seed


def k_seed(mon, rng, tier):
    if maybe(rng, .25):
        w, f, seed = extras(rng)
        mon.describe(function=w, seed=seed)
        a = zoo.flat(watched(mon, rng, lambda: f(seed), w))
        b = zoo.flat(watched(mon, rng, lambda: f(seed), w))
        mon.check("repeat", not zoo.same(a, b), f"{w} seed={seed}: {zoo.same(a, b)}")
        o = zoo.flat(watched(mon, rng, lambda: f(seed + 1), w))
        if w not in ("power-size", "placebo-run"):
            mon.check("other-seed", zoo.same(a, o), f"{w}: seeds {seed} and {seed + 1} give the same answer")
        mon.state("function", w)
        return
    kind = pick(rng, *zoo.ZOO)
    c = zoo.ZOO[kind](rng, tier)
    mon.describe(kind=kind, case=str(c)[:400])
    tag = str(c)[:350]
    a = zoo.flat(watched(mon, rng, c.fit, tag))
    b = zoo.flat(watched(mon, rng, c.fit, tag))
    mon.check("repeat", not zoo.same(a, b), f"{tag}: two fits with the same seed differ: {zoo.same(a, b)}")
    mon.state(kind + c.tag[:10], "repeat", c.seeded)
    if not c.seeded:
        return
    s = c.params["seed"]
    o = zoo.flat(watched(mon, rng, c.with_(params={**c.params, "seed": s + 1 + int(rng.integers(50))}).fit, tag))
    live = [k for k in a if rnd(k) and isinstance(a[k], float) and np.isfinite(a[k]) and a[k] not in (0.0, 1.0)]
    det = kind == "trop" and c.params["variance_method"] == "jackknife"
    degenerate = kind == "sdid" and c.params["variance_method"] == "placebo" and a.get(".se") == 0
    if live and not det and not degenerate:
        few = kind in ("diag", "ptrend")
        mon.check("other-seed", bool(zoo.same(a, o)) or few, f"{tag}: another seed gives exactly the same draws")
    if kind != "trop":
        for k in (".att", ".overall_att", ".avg_att", "[wasserstein_distance]", ".original_effect"):
            if k in a:
                mon.check("other-seed", a[k] == o[k], f"{tag}: the point estimate {k} depends on the seed")
    # without a seed the global generator must not matter either
    if kind in ("cs", "sa", "did", "twfe", "sdid") and not degenerate and live:
        u = c.with_(params={**c.params, "seed": None})
        res = []
        for _ in range(2):
            np.random.seed(7)
            random.seed(7)
            g = gstate()
            res.append(zoo.flat(u.fit()))
            mon.check("global-state", gstate() == g, f"{tag}: unseeded fit changed the global random state")
        mon.check("unseeded", bool(zoo.same(*res)), f"{tag}: unseeded draws repeat with the global random state")


def attrs(est):
    """What a fit leaves on the estimator (one scratch attribute of CS, only read right after it is written, left out)."""
    return {k: v for k, v in zoo.flat({k: v for k, v in vars(est).items() if not callable(v) and k != "_event_study_vcov"}).items()}


def k_history(mon, rng, tier):
    kind = pick(rng, "did", "did", "twfe", "mp", "cs", "cs", "sa", "bacon", "sdid", "ddd", "trop")
    c0 = zoo.ZOO[kind](rng, tier)
    pool = [c0]
    for _ in range(int(rng.integers(1, 3))):
        pool.append(zoo.ZOO[kind](rng, tier).with_(params=dict(c0.params)))
    par = dict(c0.params)
    est = c0.estimator()
    other = c0.estimator()
    mon.describe(kind=kind, params=par, n=len(pool))
    held, shape = [], []

    def safe(f):
        try:
            return f(), None
        except Exception as e:  # noqa: BLE001
            return None, type(e).__name__

    for step in range(int(rng.integers(3, 6))):
        op = pick(rng, "fit", "fit", "fit", "bad", "params", "other", "views")
        shape.append(op)
        j = int(rng.integers(len(pool)))
        p = pool[j]
        if op == "bad":
            y = p.cols["outcome"]
            df = p.df.copy()
            if maybe(rng):
                df = df.drop(columns=[y])
            else:
                df[y] = df[y].astype(float)
                df.iloc[int(rng.integers(len(df))), df.columns.get_loc(y)] = np.nan
            safe(lambda: p.fit(est=est, df=df))
            continue
        if op == "params":
            old = est.get_params()
            est.set_params(alpha=0.123) if "alpha" in old else est.set_params(weights="exact")
            if maybe(rng):
                safe(lambda: p.fit(est=est))
            est.set_params(**{k: old[k] for k in ("alpha", "weights") if k in old})
            mon.check("history", est.get_params() == old, f"{kind}: parameters after change and back {est.get_params()} vs {old}")
            continue
        e = other if op == "other" else est
        r, err = safe(lambda: p.fit(est=e))
        fe = c0.cls(**par)
        f, err2 = safe(lambda: p.fit(est=fe))
        mon.check("history", err == err2, f"{kind} {par}: after {shape} refit {'raises ' + str(err) if err else 'works'} but a fresh object {'raises ' + str(err2) if err2 else 'works'}")
        if err or err2:
            continue
        a, b = zoo.flat(r), zoo.flat(f)
        mon.check("history", not zoo.same(a, b), f"{kind} {par} opts={p.opts}: after {shape} the refit differs from a fresh fit: {zoo.same(a, b)}")
        x, y = attrs(e), attrs(fe)
        mon.check("attributes", not zoo.same(x, y), f"{kind} {par}: after {shape} fitted attributes differ from a fresh object's: {zoo.same(x, y)}")
        held.append((r, a, step))
        if op == "views":
            safe(r.summary)
            for v in ("to_dict", "to_dataframe"):
                if hasattr(r, v):
                    safe(getattr(r, v))
            if kind == "did" and "formula" not in p.tag:
                safe(lambda: e.predict(p.df))
    for r, a, step in held:
        mon.check("frozen", not zoo.same(a, zoo.flat(r)), f"{kind}: the result of step {step} changed during {shape}: {zoo.same(a, zoo.flat(r))}")
    mon.state(kind, tuple(sorted(set(shape))), len(pool))


def k_chain(mon, rng, tier):
    """One sensitivity / pre-trends object analysing several results in any order."""
    which = pick(rng, "honest", "pretrends")
    cs = [zoo._pre(rng, 1.0, {}, ("mp", "cs") if which == "honest" else ("mp", "cs", "sa"))[0] for _ in range(2)]
    al = alpha_of(rng)
    if which == "honest":
        hp = {"method": pick(rng, "smoothness", "relative_magnitude", "combined"), "M": float(pick(rng, 0.0, .5, 1.0)), "alpha": al}
        make = lambda: dd.HonestDiD(**hp)
        ops = {"fit": lambda o, r: o.fit(r), "grid": lambda o, r: o.sensitivity_analysis(r, M_grid=[0.0, .5, 1.0]), "M": lambda o, r: o.fit(r, M=.7), "breakdown": lambda o, r: o.breakdown_value(r, tol=.05)}
    else:
        hp = {"alpha": al, "power": float(pick(rng, .8, .5)), "violation_type": pick(rng, "linear", "constant", "last_period")}
        make = lambda: dd.PreTrendsPower(**hp)
        ops = {"fit": lambda o, r: o.fit(r), "curve": lambda o, r: o.power_curve(r, n_points=5), "at": lambda o, r: o.power_at(r, 1.3), "M": lambda o, r: o.fit(r, M=.4)}
    base = []
    for c in cs:
        c.chain = None
        base.append(c.fit())
    if which == "pretrends":
        pre = [[t for t in cs[i].opts["post_periods"]][: max(1, len(cs[i].opts["post_periods"]) - 2)] if cs[i].cls is dd.MultiPeriodDiD else None for i in range(2)]
        ops = {k: (lambda o, r, f=f, k=k: {"fit": lambda: o.fit(r, pre_periods=pp(r)), "curve": lambda: o.power_curve(r, n_points=5, pre_periods=pp(r)),
                                            "at": lambda: o.power_at(r, 1.3, pre_periods=pp(r)), "M": lambda: o.fit(r, M=.4, pre_periods=pp(r))}[k]()) for k, f in ops.items()}
        pp = lambda r: pre[0] if r is base[0] else pre[1]
    mon.describe(which=which, params=hp)
    before = [zoo.flat(b) for b in base]
    o, held, shape = make(), [], []
    for _ in range(int(rng.integers(3, 6))):
        k, j = pick(rng, *ops), int(rng.integers(2))
        shape.append(f"{k}{j}")
        scramble(rng)
        g = gstate()
        a = ops[k](o, base[j])
        mon.check("global-state", gstate() == g, f"{which} {k} changed the global random state")
        b = ops[k](make(), base[j])
        fa, fb = zoo.flat(a), zoo.flat(b)
        mon.check("chain", not zoo.same(fa, fb), f"{which} {hp}: after {shape} {zoo.same(fa, fb)}")
        held.append((a, fa))
    for a, fa in held:
        mon.check("frozen", not zoo.same(fa, zoo.flat(a)), f"{which}: an earlier result changed during {shape}")
    for b, x in zip(base, before):
        mon.check("frozen", not zoo.same(x, zoo.flat(b)), f"{which}: the analysed result changed during {shape}")
    mon.state(which, tuple(sorted({s[:-1] for s in shape})))


def k_threads(mon, rng, tier):
    cases = [zoo.ZOO[pick(rng, "did", "twfe", "mp", "cs", "bacon", "ddd", "sdid", "diag", "ptrend", "sa")](rng, tier) for _ in range(5)]
    mon.describe(cases=[str(c)[:80] for c in cases])
    want = [zoo.flat(c.fit()) for c in cases]
    got = [None] * 10
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    g = None
    try:
        bar = threading.Barrier(10)

        def work(i):
            c = cases[i % 5]
            kw = c.kwargs()
            e = None if c.func else c.estimator()
            bar.wait()
            try:
                r = c.func(c.df, **kw) if c.func else e.fit(c.df, **kw)
                got[i] = zoo.flat(c.chain(r) if c.chain else r)
            except Exception as ex:  # noqa: BLE001
                got[i] = {"error": repr(ex)}
        g = gstate()
        ts = [threading.Thread(target=work, args=(i,)) for i in range(10)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon.check("global-state", gstate() == g, "concurrent fits changed the global random state")
    for i in range(10):
        mon.check("threads", not zoo.same(want[i % 5], got[i]), f"concurrent fit of {str(cases[i % 5])[:200]} differs from the same fit alone: {zoo.same(want[i % 5], got[i])}")
    mon.state("threads", tuple(sorted({c.kind for c in cases})))


CHILD = """
import sys, json, hashlib, warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
from mon import zoo
out = []
for kind, s in json.loads(sys.argv[1]):
    c = zoo.ZOO[kind](np.random.default_rng(s), "quick", **({} if kind in ("did", "ddd") else {"labels": sys.argv[2]}))
    try:
        f = zoo.flat(c.fit())
    except Exception as e:
        f = {"error": repr(e)}
    out.append([kind, s, str(c)[:250], hashlib.sha1(repr(sorted(f.items())).encode()).hexdigest(), {k: repr(v) for k, v in list(f.items())[:4000]}])
print(json.dumps(out))
"""


def k_process(mon, rng, tier):
    todo = [[k, int(rng.integers(1e6))] for k in zoo.ZOO]
    hs = [0, int(rng.integers(1, 4e9)), int(rng.integers(1, 4e9))]
    mon.describe(cases=todo, hashseeds=hs)
    res = []
    for h in hs:
        p = subprocess.run([sys.executable, "-c", CHILD, json.dumps(todo), "str"], capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": str(h)}, timeout=150)
        assert p.returncode == 0, p.stderr[-1500:]
        res.append(json.loads(p.stdout))
    for other, h in zip(res[1:], hs[1:]):
        for (k, s, tag, d1, f1), (_, _, _, d2, f2) in zip(res[0], other):
            bad = [(q, f1.get(q), f2.get(q)) for q in f1 if f1.get(q) != f2.get(q)][:3] if d1 != d2 else []
            mon.check("process", d1 == d2, f"{tag}: another process (hash seed {h}) gives {bad or 'another result'}")
            mon.state("process", k)


KINDS = {"seed": (k_seed, 260, 3000), "history": (k_history, 260, 3200), "chain": (k_chain, 40, 500), "threads": (k_threads, 16, 200), "process": (k_process, 3, 24)}
