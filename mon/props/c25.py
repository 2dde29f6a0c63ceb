"""C25: unusable data is refused, never silently turned into a number; valid data is never refused."""
import re
import warnings
import numpy as np
import pandas as pd

from mon import zoo, gen
from mon.gen import pick, maybe
import diff_diff as dd

RULE = ("every estimator and diagnostic family with random options, its data corrupted by one or two faults (missing column, missing/infinite/text value at a random row of every column used, non-binary or one-sided indicators, empty cells and groups, "
        "missing or doubled panel cells, inconsistent or reversed timing, unusable period lists), plus harmless variations; non-trivial = distinct (family, options, fault) state")
NOTE = ("The monitor classifies every outcome of a call: an exception of a documented kind, a headline that is not a number, a number equal to the fit without the unobserved row (CallawaySantAnna and TROP treat a missing outcome as an unobserved cell), or a number made of something else (violation).")
TECHNIQUE = "runtime monitoring: fault injection into the input tables of the real estimators, verdict on the exception / not-a-number / number each call ends in"
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"refused": 3000, "valid": 500, "unidentified": 80, "unobserved": 30, "inputs": 250, "validator": 100}

ERR = (ValueError, KeyError, TypeError, RuntimeError, IndexError)
HEAD = re.compile(r"^\.(att|se|overall_att|overall_se|avg_att|avg_se|twfe_estimate|original_effect|placebo_effect|lb|ub|mdv|power)$|^\[(\w*p_value|mean_difference|trend_difference|wasserstein_distance)\]$")


def headline(r):
    return {k: v for k, v in zoo.flat(r).items() if HEAD.match(k)}


def finite(h):
    return any(isinstance(v, float) and np.isfinite(v) for v in h.values())


def put(rng, df, col, v):
    x = df.copy()
    if isinstance(v, str) or v is None:
        x[col] = x[col].astype(object)
    elif x[col].dtype.kind in "iub":
        x[col] = x[col].astype(float)
    elif x[col].dtype.kind != "f" and not (x[col].dtype.kind in "M"):
        x[col] = x[col].astype(object)
    i = int(rng.integers(len(x)))
    x.iloc[i, x.columns.get_loc(col)] = v
    return x


def roles(c):
    return [(r, x) for r, v in c.cols.items() if v is not None for x in (v if isinstance(v, list) else [v])]


BIN = {"did": ("treatment", "time"), "ddd": ("group", "partition", "time"), "mp": ("treatment",), "sdid": ("treatment",), "trop": ("treatment",), "twfe": ("treatment",)}


def faults(rng, c):
    """[(name, function case -> corrupted case)] that must be refused."""
    F = []
    k, df = c.kind, c.df
    lenient = k in ("diag", "ptrend")

    def add(name, fn):
        F.append((name, fn))

    def on(col, fn):
        def g(q):
            x = q.df.copy()
            r = fn(x)
            return q.with_(df=x if r is None else r)
        return g

    for role, col in roles(c):
        add(f"drop:{role}", lambda q, col=col: q.with_(df=q.df.drop(columns=[col])))
        if role == "outcome" and k in ("cs", "trop"):
            vals = (np.inf, -np.inf, "zz")
        elif role == "outcome" and k == "ptrend":
            vals = ()
        elif role == "outcome":
            vals = (np.nan, np.inf, -np.inf, None, "zz")
        elif role == "covariates":
            vals = (np.inf, -np.inf, "zz") if k == "cs" else (np.nan, np.inf, None, "zz")
        elif role in ("treatment", "group", "partition"):
            vals = (np.nan, None, 2, .5, -1, "zz", np.inf)
        elif role == "first_treat":
            vals = (np.nan, None, "zz")
        elif role == "time" and k in ("cs", "sa", "bacon"):
            vals = (np.nan, None, np.inf, "zz")
        elif role == "time" and k in ("did", "ddd"):
            vals = (np.nan, None, .5, 2, "zz", np.inf)
        else:
            vals = (np.nan, None)
        for v in vals:
            add(f"{v}:{role}", lambda q, col=col, v=v: q.with_(df=put(rng, q.df, col, v)))
        if role in BIN.get(k, ()):
            add(f"shifted:{role}", lambda q, col=col: q.with_(df=q.df.assign(**{col: q.df[col] + 1})))
            add(f"text:{role}", lambda q, col=col: q.with_(df=q.df.assign(**{col: np.where(q.df[col] == 1, "yes", "no")})))
            for v in (0, 1):
                add(f"only{v}:{role}", lambda q, col=col, v=v: q.with_(df=q.df[q.df[col] == v]))
    if not lenient:
        add("empty", lambda q: q.with_(df=q.df.iloc[:0]))
        add("one-row", lambda q: q.with_(df=q.df.iloc[:1]))
    if "unit" in c.cols and k in ("cs", "sdid", "trop"):
        def dup(q, shift):
            x = q.df.iloc[[int(rng.integers(len(q.df)))]].copy()
            x["y"] = x["y"] + shift
            return q.with_(df=pd.concat([q.df, x], ignore_index=True))
        add("repeated-cell", lambda q: dup(q, 0.0))
        add("conflicting-cell", lambda q: dup(q, 5.0))
    if "first_treat" in c.cols:
        ft, u = c.cols["first_treat"], c.cols["unit"]

        def bad_timing(q):
            x = q.df.copy()
            x[ft] = x[ft].astype(float)
            x[u] = x[u]
            cnt = x.groupby(u)[ft].transform("size")
            idx = np.flatnonzero((cnt > 1).to_numpy())
            i = int(pick(rng, *idx.tolist()))
            j = x.columns.get_loc(ft)
            old = x.iloc[i, j]
            x.iloc[i, j] = pick(rng, 0.0, float(old) + 1) if old != 0 and np.isfinite(old) else float(x[c.cols["time"]].max())
            return q.with_(df=x)
        add("inconsistent-timing", bad_timing)
        never = lambda q: q.df[ft].map(zoo.gen_never)
        if k == "cs":
            add("no-never-treated", lambda q: q.with_(df=q.df[~never(q)]))
        if k in ("cs", "sa", "bacon"):
            add("only-never-treated", lambda q: q.with_(df=q.df[never(q)]))
    if k == "sdid":
        def missing_cell(q):
            i = int(rng.integers(len(q.df)))
            return q.with_(df=q.df.drop(index=q.df.index[i]))
        add("missing-cell", missing_cell)

        def flip(q):
            x = q.df.copy()
            i, j = int(rng.integers(len(x))), x.columns.get_loc(q.cols["treatment"])
            x.iloc[i, j] = 1 - x.iloc[i, j]
            return q.with_(df=x)
        add("inconsistent-treatment", flip)
    if k == "trop":
        def reverse(q):
            x = q.df.copy()
            t, u, d = (q.cols[a] for a in ("time", "unit", "treatment"))
            g = x[x[d] == 1].groupby(u)[t]
            v = pick(rng, *sorted(g.size()[g.size() > 1].index.tolist(), key=str)) if (g.size() > 1).any() else None
            if v is None:
                return None
            m = (x[u] == v) & (x[t] == g.max()[v])
            x.loc[m, d] = 0
            return q.with_(df=x)
        add("reversed-treatment", reverse)

        def gap(q):
            # the reversal happens while the unit is not observed
            x = q.df.copy()
            t, u, d = (q.cols[a] for a in ("time", "unit", "treatment"))
            g = x[x[d] == 1].groupby(u)[t]
            ok = sorted(g.size()[g.size() > 2].index.tolist(), key=str)
            if not ok:
                return None
            v = pick(rng, *ok)
            w = sorted(x.loc[(x[u] == v) & (x[d] == 1), t])
            i = int(rng.integers(1, len(w) - 1))
            x.loc[(x[u] == v) & x[t].isin(w[i + 1:]), d] = 0
            return q.with_(df=x[~((x[u] == v) & (x[t] == w[i]))])
        add("reversed-across-a-gap", gap)
    if k in ("mp", "sdid"):
        t = c.cols["time"]
        for nm, v in (("empty", []), ("absent", [99999]), ("partly-absent", list(c.opts.get("post_periods") or []) + [99999]), ("all", None)):
            def per(q, nm=nm, v=v):
                w = q.with_()
                w.opts["post_periods"] = sorted(q.df[t].unique().tolist()) if nm == "all" else v
                return w
            add(f"post-periods-{nm}", per)
    if k == "mp":
        def ref(q):
            w = q.with_()
            w.opts["reference_period"] = 99999
            return w
        add("absent-reference", ref)
    if k == "ddd":
        def cell(q):
            m = np.ones(len(q.df), bool)
            for a in ("group", "partition", "time"):
                m &= (q.df[q.cols[a]] == int(rng.integers(2))).to_numpy()
            return q.with_(df=q.df[~m])
        add("empty-cell", cell)
    return F


def unidentified(rng, c):
    """[(name, case)] whose headline must be refused or not a number."""
    k, df = c.kind, c.df
    if k == "did":
        a, b = int(rng.integers(2)), int(rng.integers(2))
        return [(f"empty-cell{a}{b}", c.with_(df=df[~((df[c.cols["treatment"]] == a) & (df[c.cols["time"]] == b))]))]
    if k == "mp":
        t, d = c.cols["time"], c.cols["treatment"]
        post = c.opts.get("post_periods")
        times = sorted(df[t].unique().tolist())
        if post is None:
            post = times[len(times) // 2:]
        pre = [p for p in times if p not in post]
        a = int(rng.integers(2))
        out = [(f"no-group{a}-in-a-post-period", c.with_(df=df[~((df[d] == a) & (df[t] == pick(rng, *post)))])),
               (f"no-group{a}-before-treatment", c.with_(df=df[~((df[d] == a) & df[t].isin(pre))]))]
        for _, q in out:
            q.opts["post_periods"] = post
        return out
    return []


def call(c):
    try:
        return "value", headline(c.fit())
    except ERR as e:
        return "refused", e
    except Exception as e:       # noqa
        return "crash", e


def row(df, i):
    return df.drop(index=df.index[i])


def near(a, b, rtol=1e-7):
    return [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b))
            if not (k in a and k in b and (a[k] == b[k] or (a[k] != a[k] and b[k] != b[k])
                                          or (isinstance(a[k], float) and isinstance(b[k], float) and abs(a[k] - b[k]) <= rtol * (abs(a[k]) + abs(b[k])) + 1e-9)))]


def case_for(rng, kind, tier):
    c = zoo.ZOO[kind](rng, tier)
    if kind in ("cs", "sa"):
        c.params["n_bootstrap"] = 0
    if "n_bootstrap" in c.params and kind in ("sdid", "trop"):
        c.params["n_bootstrap"] = min(int(c.params["n_bootstrap"]), 10) or c.params["n_bootstrap"]
    return c


def fam(kind):
    def run(mon, rng, tier):
        c = case_for(rng, kind, tier)
        base = headline(c.fit())
        if not finite(base):
            mon.saw("base-undefined")
        opts = ",".join(sorted(str(k) for k in list(c.opts) + [k for k, v in c.params.items() if v not in (None, False)]))
        F = faults(rng, c)
        n = min(len(F), 14 if kind not in ("trop",) else 10)
        order = rng.permutation(len(F))[:n].tolist()
        order += [i for i, (nm, _) in enumerate(F) if nm.startswith("reversed") and i not in order]
        for i in order:
            name, fn = F[int(i)]
            q = fn(c)
            if q is None:
                continue
            judge(mon, c, q, name, base, opts)
        # two faults at once
        for _ in range(2):
            i, j = rng.choice(len(F), 2, replace=False)
            try:
                q = F[int(i)][1](F[int(j)][1](c))
            except Exception:
                continue
            if q is not None:
                judge(mon, c, q, f"{F[int(j)][0]}+{F[int(i)][0]}", base, opts)
        for name, q in unidentified(rng, c):
            what, v = call(q)
            mon.check("unidentified", what == "refused" or (what == "value" and not finite_main(v)),
                      lambda: f"{c}: {name}: reported {v!r}")
            mon.state((kind, name, what, opts))
        # missing outcomes as unobserved cells
        if kind in ("cs", "trop"):
            # (an untreated cell: for a treated one the dropped row would also lose the treatment)
            i = int(pick(rng, *np.flatnonzero((c.df["D"] == 0).to_numpy() if c.kind == "trop" else np.ones(len(c.df), bool)).tolist()))
            x = c.df.copy()
            x["y"] = x["y"].astype(float)
            x.iloc[i, x.columns.get_loc("y")] = np.nan
            a, b = call(c.with_(df=x)), call(c.with_(df=row(c.df, i)))
            if "refused" in (a[0], b[0]):
                ok, msg = True, ""
            elif a[0] == "value" and b[0] == "value":
                bad = near(a[1], b[1], 1e-6)
                ok, msg = not bad, bad
            else:
                ok, msg = False, (a, b)
            mon.check("unobserved", ok, lambda: f"{c}: outcome missing at row {i}: not the fit without that row: {msg}")
        # harmless variations
        for name, q in harmless(rng, c):
            what, v = call(q)
            if not mon.check("valid", what == "value", lambda: f"{c}: {name}: usable data refused: {v!r}"):
                continue
            mon.check("valid-finite", finite(v) == finite(base), lambda: f"{c}: {name}: {v} instead of {base}")
            mon.state((kind, "valid", name, opts))
    return run


def finite_main(h):
    return any(isinstance(h.get(k), float) and np.isfinite(h[k]) for k in (".att", ".avg_att", ".se", ".avg_se"))


def judge(mon, c, q, name, base, opts):
    what, v = call(q)
    if what == "value" and c.kind in ("diag", "ptrend") and not near(v, base, 1e-9):
        mon.saw("fault-outside-used-data")
        return
    mon.check("refused", what == "refused" or (what == "value" and not finite(v)), lambda: f"{c}: {name}: {'reported ' if what == 'value' else ''}{v!r}")
    mon.state((c.kind, name, what, opts))
    mon.saw("error" if what == "refused" else "not-a-number")


def harmless(rng, c):
    df = c.df
    out = []
    for role, col in roles(c):
        if role in ("treatment", "group", "partition") and maybe(rng, .7):
            t = pick(rng, bool, float, "int8", "uint8", "float32")
            out.append((f"{role} as {t}", c.with_(df=df.assign(**{col: df[col].astype(t)}))))
    x = df.sample(frac=1, random_state=int(rng.integers(1e6)))
    x["junk"] = np.where(rng.random(len(x)) < .5, np.nan, np.inf)
    x["note"] = None
    x["words"] = "zz"
    x.index = pick(rng, np.zeros(len(x), int), ["r"] * len(x), np.arange(len(x)) - 7)
    out.append(("shuffled rows, unused incomplete columns", c.with_(df=x)))
    if "unit" in c.cols and not c.unit_kw:
        out.append(("text unit labels", c.relabelled("unit", lambda v: f"unit {v}")))
    return out


def inputs(mon, rng, tier):
    """Analyses of results, power formulas and data helpers refuse what they cannot use."""
    did = zoo.did(rng, tier)
    r = did.fit()
    mpc, _ = zoo._pre(rng, 1.0, {}, ("mp",))
    m = mpc.fit()
    bad = pick(rng, r, None, 3.0, "res", {"effects": 1}, mpc.df)

    def refuses(name, f, *a, **kw):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = f(*a, **kw)
            mon.check("inputs", False, lambda: f"{name}({a}, {kw}) returned {str(v)[:200]}")
        except ERR:
            mon.check("inputs", True)
        except Exception as e:       # noqa
            mon.check("inputs", isinstance(e, AttributeError), lambda: f"{name}: {e!r}")
        mon.state(("inputs", name))

    refuses("HonestDiD.fit", dd.HonestDiD().fit, bad)
    refuses("PreTrendsPower.fit", dd.PreTrendsPower().fit, bad)
    refuses("compute_honest_did", dd.compute_honest_did, bad)
    refuses("compute_pretrends_power", dd.compute_pretrends_power, bad)
    refuses("HonestDiD M<0", dd.HonestDiD, M=-float(rng.exponential()) - 1e-9)
    refuses("HonestDiD method", dd.HonestDiD, method="nope")
    refuses("PreTrendsPower violation", dd.PreTrendsPower, violation_type="nope")
    pa = dd.PowerAnalysis()
    good = dict(n_treated=int(rng.integers(5, 90)), n_control=int(rng.integers(5, 90)), sigma=float(rng.exponential() + .1),
                n_pre=int(rng.integers(1, 4)), n_post=int(rng.integers(1, 4)))
    for k, v in (("n_treated", pick(rng, 0, -3)), ("n_control", pick(rng, 0, -1)), ("sigma", -.5), ("n_pre", pick(rng, 0, -2)), ("n_post", pick(rng, 0, -1))):
        kw = {**good, k: v}
        refuses(f"power {k}", pa.power, effect_size=1.0, **kw)
        refuses(f"mde {k}", pa.mde, **kw)
    refuses("power effect", pa.power, effect_size=np.nan, **good)
    refuses("sample_size sigma", pa.sample_size, effect_size=1.0, sigma=-1.0)
    refuses("sample_size treat_frac", pa.sample_size, effect_size=1.0, sigma=1.0, treat_frac=pick(rng, 0.0, 1.0, 1.3, -.2))
    if good["n_pre"] + good["n_post"] > 2:
        refuses("power rho", pa.power, effect_size=1.0, rho=pick(rng, 1.2, -.99), **good)
    for k, v in (("alpha", pick(rng, 0, 1, -.1, 1.5)), ("power", pick(rng, 0, 1, 2)), ("alternative", "sideways")):
        refuses(f"PowerAnalysis {k}", dd.PowerAnalysis, **{k: v})
    df = mpc.df
    for k, v in (("n_units", 1), ("n_periods", 1), ("treatment_fraction", pick(rng, 0.0, 1.0)), ("treatment_period", pick(rng, 0, 4)), ("sigma", -1.0), ("n_simulations", 0), ("effect_sizes", [])):
        a = dict(n_units=20, n_periods=4, treatment_period=2, treatment_effect=1.0, n_simulations=2, seed=1, progress=False)
        a[k] = v
        refuses(f"simulate_power {k}", dd.simulate_power, dd.DifferenceInDifferences(), **a)
    refuses("make_treatment_indicator", dd.make_treatment_indicator, df, "nope", treated_values=[1])
    refuses("make_treatment_indicator args", dd.make_treatment_indicator, df, "unit")
    refuses("make_post_indicator", dd.make_post_indicator, df, "nope", post_periods=[1])
    refuses("make_post_indicator args", dd.make_post_indicator, df, "time")
    refuses("balance_panel", dd.balance_panel, df, pick(rng, "nope", "unit"), pick(rng, "nope", "missing"))
    refuses("balance_panel method", dd.balance_panel, df, "unit", "time", method="nope")
    refuses("wide_to_long", dd.wide_to_long, pd.DataFrame({"id": [1, 2], "a": [1, 2]}), ["a", "b"], "id")
    refuses("create_event_time", dd.create_event_time, df, "time", "nope")
    refuses("rank_control_units", dd.rank_control_units, df, "unit", "time", "nope", "ever")
    refuses("rank_control_units treated", dd.rank_control_units, df, "unit", "time", "y", treated_units=["nobody"])
    refuses("load_dataset", dd.load_dataset, "no such data")


def formulas(mon, rng, tier):
    """Formulas naming unknown columns, or without the interaction that defines the effect, are refused."""
    df = gen.cross_section(rng, n=60, covs=3)
    fit = lambda f, d=df: dd.DifferenceInDifferences().fit(d, formula=f)
    covs = [f"x{k}" for k in rng.permutation([1, 2, 3])]
    i = int(rng.integers(3))
    miss = covs[:i] + ["nope"] + covs[i:]
    for tail in (" + ".join(miss), " + ".join(covs)):
        for head in ("treated * post", "treated + post + treated:post", "post + treated:post + treated"):
            f = f"y ~ {head} + {tail}"
            if "nope" in f:
                mon.raises("refused", ERR, lambda: fit(f), f)
                d = df.drop(columns=[covs[i]])
                mon.raises("refused", ERR, lambda: fit(f.replace(" + nope", ""), d), f"{f} without {covs[i]}")
            else:
                mon.check("valid", np.isfinite(fit(f).att), f)
    for f in ("y ~ treated + post", "y ~ treated", "treated * post", "nope ~ treated * post", "y ~ nope * post", "y ~ treated * nope",
              "y ~ treated + post + treated:nope", "y ~ treated * post * x1", "y ~ ", "~ treated * post", ""):
        mon.raises("refused", ERR, lambda: fit(f), f"formula {f!r}")
    d = df.copy()
    d.loc[int(rng.integers(len(d))), covs[i]] = np.nan
    mon.raises("refused", ERR, lambda: fit(f"y ~ treated * post + {' + '.join(covs)}", d), "missing covariate value in a formula")
    mon.state("formulas", i)


def validator(mon, rng, tier):
    """validate_did_data flags unusable tables and passes usable ones."""
    c = zoo.did(rng, tier)
    y, d, t = (c.cols[k] for k in ("outcome", "treatment", "time"))
    ok = dd.validate_did_data(c.df, y, d, t, raise_on_error=False)
    mon.check("validator", ok["valid"] and not ok["errors"], lambda: f"usable data flagged: {ok}")
    mon.check("validator", ok["summary"]["n_obs"] == len(c.df) and ok["summary"]["n_treated"] == int((c.df[d] == 1).sum()), lambda: f"summary {ok}")
    a, b = int(rng.integers(2)), int(rng.integers(2))
    bad = [("missing column", c.df.drop(columns=[pick(rng, y, d, t)])), ("missing value", put(rng, c.df, pick(rng, y, d, t), np.nan)),
           ("infinite outcome", put(rng, c.df, y, pick(rng, np.inf, -np.inf))), ("text outcome", put(rng, c.df, y, "zz")),
           ("non-binary treatment", put(rng, c.df, d, pick(rng, 2, .5, -1))), ("one group", c.df[c.df[d] == a]), ("one period", c.df[c.df[t] == b]),
           ("empty cell", c.df[~((c.df[d] == a) & (c.df[t] == b))]), ("empty", c.df.iloc[:0])]
    for name, x in bad:
        v = dd.validate_did_data(x, y, d, t, raise_on_error=False)
        mon.check("validator", not v["valid"] and v["errors"], lambda: f"{name}: passed as valid: {v}")
        try:
            dd.validate_did_data(x, y, d, t)
            mon.violate("validator-raises", f"{name}: raise_on_error did not raise")
        except ValueError:
            mon.check("validator-raises", True)
        mon.state(("validator", name))


def absorbed(mon, rng, tier):
    """A treatment absorbed by the fixed effects has no effect to report (listed finding: TWFE reports one)."""
    d, meta = gen.panel(rng)
    times = sorted(d["time"].unique().tolist())
    d["after"] = d["time"].isin(times[int(rng.integers(1, len(times))):]).astype(int)
    from diff_diff.twfe import TwoWayFixedEffects
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = TwoWayFixedEffects().fit(d, outcome="y", treatment="after", time="time", unit="unit")
        except ERR:
            mon.check("absorbed", True)
            return
    mon.check("absorbed-warned", np.isnan(r.att) or any("not identified" in str(x.message) for x in w), lambda: f"no warning: att {r.att}")
    mon.check("absorbed", np.isnan(r.att), lambda: f"treatment collinear with the period effects: ATT {r.att} se {r.se} reported", key="twfe-absorbed-treatment")


N = {"did": (40, 900), "twfe": (36, 800), "mp": (36, 800), "cs": (30, 700), "sa": (30, 700), "bacon": (30, 700), "sdid": (30, 500), "ddd": (40, 900), "trop": (12, 150), "diag": (30, 500), "ptrend": (30, 600)}
KINDS = {k: (fam(k), *n) for k, n in N.items()}
KINDS["inputs"] = (inputs, 8, 120)
KINDS["formulas"] = (formulas, 6, 100)
KINDS["validator"] = (validator, 16, 300)
KINDS["absorbed"] = (absorbed, 2, 20)
