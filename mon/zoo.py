"""A zoo of fitted things: every estimator and diagnostic of the library with varied options,
described well enough that the data, the columns, the labels and the parameters can be transformed
and the fit repeated.  Used by the cross-cutting monitors (C02, C03, C21-C27)."""
import copy
import dataclasses
import datetime
import numbers
import warnings
import numpy as np
import pandas as pd
import diff_diff as dd
from diff_diff.twfe import TwoWayFixedEffects
from . import gen
from .gen import pick, maybe, alpha_of


class Case:
    """One configured analysis.

    cols   role -> column name or list of names (every column the analysis reads)
    opts   other keyword arguments of fit / of the function
    unit_kw, time_kw  names in opts whose values are unit / time labels
    """

    def __init__(self, kind, df, cols, cls=None, params=None, func=None, opts=None, rename=None, chain=None,
                 unit_kw=(), time_kw=(), seeded=False, linear=True, eff=None, tag=""):
        self.kind, self.df, self.cols, self.cls, self.params = kind, df, dict(cols), cls, dict(params or {})
        self.func, self.opts, self.names, self.chain = func, dict(opts or {}), dict(rename or {}), chain
        self.unit_kw, self.time_kw, self.seeded, self.linear, self.eff, self.tag = unit_kw, time_kw, seeded, linear, eff, tag

    def __repr__(self):
        return f"{self.kind}{self.tag} params={self.params} opts={self.opts} cols={self.cols}"

    # -------- running
    def estimator(self):
        return self.cls(**copy.deepcopy(self.params))

    def kwargs(self):
        kw = {self.names.get(r, r): copy.deepcopy(c) for r, c in self.cols.items() if c is not None}
        if "cluster" in kw and self.cls is not None:
            kw.pop("cluster")
        kw.update(copy.deepcopy(self.opts))
        if self.func is not None:
            kw.update(copy.deepcopy(self.params))
        return kw

    def fit(self, est=None, df=None):
        df = self.df if df is None else df
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if self.func is not None:
                return self.func(df, **self.kwargs())
            est = est or self.estimator()
            res = est.fit(df, **self.kwargs())
            return self.chain(res) if self.chain else res

    # -------- transformations
    def with_(self, **kw):
        c = copy.copy(self)
        c.cols, c.opts, c.params = dict(self.cols), copy.deepcopy(self.opts), copy.deepcopy(self.params)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def renamed(self, m):
        """The same case with the data frame's columns renamed."""
        f = lambda v: [m.get(x, x) for x in v] if isinstance(v, list) else m.get(v, v)
        c = self.with_(df=self.df.rename(columns=m))
        c.cols = {r: f(v) for r, v in self.cols.items()}
        if "cluster" in c.params and c.params["cluster"] is not None:
            c.params["cluster"] = m.get(c.params["cluster"], c.params["cluster"])
        return c

    def relabelled(self, role, f):
        """The same case with every label of a role ('unit' or 'time') replaced through f."""
        c = self.with_(df=self.df.copy())
        col = self.cols[role]
        c.df[col] = [f(v) for v in c.df[col]]
        for k in (self.unit_kw if role == "unit" else self.time_kw):
            if c.opts.get(k) is not None:
                v = c.opts[k]
                c.opts[k] = [f(x) for x in v] if isinstance(v, (list, tuple)) else f(v)
        if role == "time" and "first_treat" in self.cols:
            ft = self.cols["first_treat"]
            c.df[ft] = [v if gen_never(v) else f(v) for v in c.df[ft]]
        return c


def gen_never(v):
    return v == 0 or v is None or v == np.inf or v != v


# ------------------------------------------------------------------ flattening of results
SKIP = {"vcov_names"}


def _lab(k, keymap):
    if keymap is not None:
        k = keymap(k)
    if isinstance(k, tuple):
        return "(" + ",".join(_lab(x, keymap) for x in k) + ")"
    if isinstance(k, (bool, np.bool_)):
        return str(bool(k))
    if isinstance(k, numbers.Real):
        return f"{float(k):.12g}"
    return str(k)


def flat(obj, keymap=None, prefix="", out=None, depth=0, floats_only=False):
    """Every leaf of a result object as {path: value}; labels pass through keymap."""
    out = {} if out is None else out
    if depth > 12:
        return out
    if obj is None or isinstance(obj, (str, bool, np.bool_)):
        if not floats_only:
            out[prefix] = keymap(obj) if (keymap and isinstance(obj, str)) else (bool(obj) if isinstance(obj, np.bool_) else obj)
    elif isinstance(obj, numbers.Number):
        out[prefix] = float(obj) if not isinstance(obj, complex) else obj
    elif isinstance(obj, dict):
        for k, v in obj.items():
            flat(v, keymap, f"{prefix}[{_lab(k, keymap)}]", out, depth + 1, floats_only)
    elif isinstance(obj, pd.DataFrame):
        for i, row in zip(obj.index, obj.to_numpy(dtype=object)):
            for c, v in zip(obj.columns, row):
                flat(v, keymap, f"{prefix}[{_lab(i, keymap)};{_lab(c, keymap)}]", out, depth + 1, floats_only)
    elif isinstance(obj, pd.Series):
        for i, v in obj.items():
            flat(v, keymap, f"{prefix}[{_lab(i, keymap)}]", out, depth + 1, floats_only)
    elif isinstance(obj, (np.ndarray, list, tuple, pd.Index)):
        for i, v in enumerate(np.asarray(obj, dtype=object).ravel() if isinstance(obj, np.ndarray) else list(obj)):
            flat(v, keymap, f"{prefix}[#{i}]", out, depth + 1, floats_only)
    elif isinstance(obj, (set, frozenset)):
        for i, v in enumerate(sorted(obj, key=str)):
            flat(v, keymap, f"{prefix}[#{i}]", out, depth + 1, floats_only)
    elif isinstance(obj, (pd.Timestamp, datetime.date)):
        out[prefix] = str(keymap(obj) if keymap else obj)
    elif hasattr(obj, "__dict__"):
        for k, v in vars(obj).items():
            if k not in SKIP and not callable(v):
                flat(v, keymap, f"{prefix}.{k}", out, depth + 1, floats_only)
    return out


def same(a, b):
    """Bit-identical up to NaN."""
    if set(a) != set(b):
        return sorted(set(a) ^ set(b))[:4]
    return [(k, a[k], b[k]) for k in a
            if not (a[k] == b[k] or (a[k] != a[k] and b[k] != b[k]))][:4]


def freeze(df):
    """A fingerprint of a data frame (content, dtypes, index, column order)."""
    return (list(df.columns), [str(t) for t in df.dtypes], list(map(str, df.index)), type(df.index).__name__, df.index.names,
            pd.util.hash_pandas_object(df.astype({c: object for c in df.columns if df[c].dtype == object}), index=True).to_numpy().tolist())


# ------------------------------------------------------------------ the zoo
def did(rng, tier="quick", noise=1.0, **kw):
    bal = maybe(rng, .4)
    n_fe = int(pick(rng, 0, 0, 1, 2))
    d = gen.cross_section(rng, balanced=bal, n_fe=n_fe, noise=noise, **kw)
    covs = [c for c in ("x1", "x2") if maybe(rng, .4)]
    fes = [f"f{k+1}" for k in range(n_fe)]
    opts = {}
    cols = {"outcome": "y", "treatment": "treated", "time": "post"}
    if covs:
        cols["covariates"] = covs
    if fes:
        cols[pick(rng, "absorb", "fixed_effects")] = fes
    p = {"robust": maybe(rng, .7), "alpha": alpha_of(rng)}
    seeded = False
    if maybe(rng, .5):
        p["cluster"] = "cl"
        cols["cluster"] = "cl"
        if maybe(rng, .35):
            p.update(inference="wild_bootstrap", n_bootstrap=int(pick(rng, 39, 60)), seed=int(rng.integers(1e6)),
                     bootstrap_weights=pick(rng, "rademacher", "mammen", "webb"))
            seeded = True
    if maybe(rng, .15) and not fes:
        f = "y ~ treated * post" + "".join(f" + {c}" for c in covs)
        return Case("did", d, cols, dd.DifferenceInDifferences, p, seeded=seeded, tag=":formula", opts={}, rename={}) if False else \
            _formula(d, cols, p, f, seeded)
    return Case("did", d, cols, dd.DifferenceInDifferences, p, opts=opts, seeded=seeded)


class FormulaCase(Case):
    def kwargs(self):
        c = self.cols
        return {"formula": f"{c['outcome']} ~ {c['treatment']} * {c['time']}" + "".join(f" + {x}" for x in c.get("covariates", []))}


def _formula(d, cols, p, f, seeded):
    return FormulaCase("did", d, cols, dd.DifferenceInDifferences, p, seeded=seeded, tag=":formula")


def _covs(rng, d, p=.3):
    return [c for c in ("x1", "z1") if c in d and maybe(rng, p)]


def twfe(rng, tier="quick", noise=1.0, **kw):
    d, meta = gen.block_panel(rng, n_units=int(rng.integers(10, 30)), n_periods=int(rng.integers(3, 7)), noise=noise,
                              tv_covs=1, min_pre=1, **kw)
    cols = {"outcome": "y", "treatment": "ever", "time": "post", "unit": "unit"}
    if maybe(rng, .3):
        cols["covariates"] = ["z1"]
    if maybe(rng, .5):
        cols["time"] = "time"
        cols["treatment"] = "D"
    p = {"alpha": alpha_of(rng), "robust": maybe(rng, .7)}
    seeded = False
    if maybe(rng, .4):
        p["cluster"] = "cl"
        cols["cluster"] = "cl"
    if maybe(rng, .25):
        p.update(inference="wild_bootstrap", n_bootstrap=39, seed=int(rng.integers(1e6)))
        seeded = True
    return Case("twfe", d, cols, TwoWayFixedEffects, p, seeded=seeded)


def mp_params(rng, cols):
    p = {"alpha": alpha_of(rng), "robust": maybe(rng, .7)}
    if maybe(rng, .4):
        p["cluster"] = "cl"
        cols["cluster"] = "cl"
    return p


def mp(rng, tier="quick", noise=1.0, **kw):
    d, meta = gen.block_panel(rng, n_units=int(rng.integers(12, 35)), n_periods=int(rng.integers(3, 8)), noise=noise,
                              tv_covs=1, min_pre=1, **kw)
    cols = {"outcome": "y", "treatment": "ever", "time": "time"}
    if maybe(rng, .3):
        cols["covariates"] = ["z1"]
    if maybe(rng, .25):
        cols["absorb"] = ["unit"]
    times, s = meta["times"], meta["cohorts"][0]
    o = {}
    if maybe(rng, .8):
        o["post_periods"] = [t for t in times if t >= s]
        if maybe(rng, .3) and len([t for t in times if t < s]) > 1:
            o["reference_period"] = pick(rng, *[t for t in times if t < s])
    return Case("mp", d, cols, dd.MultiPeriodDiD, mp_params(rng, cols), opts=o, time_kw=("post_periods", "reference_period"))


def stag(rng, **kw):
    k = int(rng.integers(1, 4))
    T = int(rng.integers(max(4, k + 2), 8))
    cohorts = sorted(int(c) for c in rng.choice(np.arange(1, T), k, replace=False))
    base = dict(n_periods=T, cohorts=cohorts, n_units=int(rng.integers(8 * (k + 1), 8 * (k + 1) + 25)), min_size=5,
                covs=1, never_code=pick(rng, 0, 0, np.inf))
    base.update(kw)
    return gen.panel(rng, **base)


SCOLS = {"outcome": "y", "unit": "unit", "time": "time", "first_treat": "first_treat"}


def cs(rng, tier="quick", noise=1.0, boot=None, agg=None, **kw):
    d, meta = stag(rng, noise=noise, **kw)
    cols = dict(SCOLS)
    if maybe(rng, .3):
        cols["covariates"] = ["x1"]
    p = {"control_group": pick(rng, "never_treated", "not_yet_treated"), "estimation_method": pick(rng, "dr", "ipw", "reg"),
         "alpha": alpha_of(rng), "base_period": pick(rng, "varying", "universal"), "anticipation": int(pick(rng, 0, 0, 0, 1))}
    seeded = False
    if maybe(rng, .35) if boot is None else boot:
        p.update(n_bootstrap=int(pick(rng, 20, 50)), seed=int(rng.integers(1e6)), bootstrap_weights=pick(rng, "rademacher", "mammen", "webb"))
        seeded = True
    if min(meta["cohorts"]) - p["anticipation"] <= min(meta["times"]):
        p["anticipation"] = 0              # the first cohort's base period would precede the panel
    o = {"aggregate": agg or pick(rng, None, "simple", "event_study", "group", "all")}
    if o["aggregate"] in ("event_study", "all") and maybe(rng, .2):
        o["balance_e"] = int(pick(rng, 0, 1))
    return Case("cs", d, cols, dd.CallawaySantAnna, p, opts=o, seeded=seeded)


def sa(rng, tier="quick", noise=1.0, boot=None, **kw):
    d, meta = stag(rng, noise=noise, **kw)
    cols = dict(SCOLS)
    p = {"alpha": alpha_of(rng), "control_group": pick(rng, "never_treated", "not_yet_treated"), "anticipation": int(pick(rng, 0, 0, 0, 1))}
    if min(meta["cohorts"]) - p["anticipation"] <= min(meta["times"]):
        p["anticipation"] = 0              # the first cohort's reference period would precede the panel
    if maybe(rng, .3):
        p["cluster"] = "cl"
        cols["cluster"] = "cl"
    seeded = False
    if maybe(rng, .2) if boot is None else boot:
        p.update(n_bootstrap=12, seed=int(rng.integers(1e6)))
        seeded = True
    return Case("sa", d, cols, dd.SunAbraham, p, seeded=seeded)


def bacon(rng, tier="quick", noise=1.0, **kw):
    d, meta = stag(rng, noise=noise, **{"covs": 0, **kw})
    return Case("bacon", d, dict(SCOLS), dd.BaconDecomposition, {"weights": pick(rng, "exact", "approximate")})


def sdid(rng, tier="quick", noise=1.0, **kw):
    d, meta = gen.block_panel(rng, n_units=int(rng.integers(9, 20)), n_periods=int(rng.integers(5, 9)), n_treated=int(rng.integers(1, 4)),
                              noise=noise, tv_covs=1, **kw)
    cols = {"outcome": "y", "treatment": "ever", "unit": "unit", "time": "time"}
    if maybe(rng, .25):
        cols["covariates"] = ["z1"]
    p = {"alpha": alpha_of(rng), "variance_method": pick(rng, "placebo", "bootstrap"), "n_bootstrap": int(pick(rng, 8, 25)),
         "seed": int(rng.integers(1e6)), "lambda_reg": float(pick(rng, 0.0, 0.0, .5)), "zeta": float(pick(rng, 1.0, .3))}
    o = {"post_periods": [t for t in meta["times"] if t >= meta["cohorts"][0]]}
    return Case("sdid", d, cols, dd.SyntheticDiD, p, opts=o, time_kw=("post_periods",), seeded=True)


def ddd(rng, tier="quick", noise=1.0, **kw):
    d = gen.ddd(rng, covs=2, noise=noise, min_cell=12, **kw)
    cols = {"outcome": "y", "group": "g", "partition": "p", "time": "t"}
    if maybe(rng, .4):
        cols["covariates"] = ["x1", "x2"][:int(rng.integers(1, 3))]
    p = {"estimation_method": pick(rng, "dr", "reg", "ipw"), "alpha": alpha_of(rng), "robust": maybe(rng, .7)}
    if maybe(rng, .3):
        p["cluster"] = "cl"
        cols["cluster"] = "cl"
    return Case("ddd", d, cols, dd.TripleDifference, p)


def trop(rng, tier="quick", noise=1.0, method=None, **kw):
    method = method or pick(rng, "twostep", "joint")
    d, meta = gen.block_panel(rng, n_units=int(rng.integers(7, 11)), n_periods=int(rng.integers(5, 7)), n_treated=int(rng.integers(1, 3)),
                              noise=noise, **kw)
    cols = {"outcome": "y", "treatment": "D", "unit": "unit", "time": "time"}
    p = {"method": method, "alpha": alpha_of(rng), "lambda_time_grid": [float(pick(rng, 0., .3))], "lambda_unit_grid": [float(pick(rng, 0., .5))],
         "lambda_nn_grid": [float(pick(rng, 1e6, 1e6, 1.0))], "variance_method": pick(rng, "bootstrap", "jackknife"), "n_bootstrap": 4,
         "seed": int(rng.integers(1e6)), "max_loocv_samples": 4}
    if maybe(rng, .3):
        p["lambda_unit_grid"] = [0.0, 0.4]
    return Case("trop", d, cols, dd.TROP, p, seeded=True)


def diag(rng, tier="quick", noise=1.0, which=None, **kw):
    which = which or pick(rng, "timing", "group", "permutation", "loo")
    d, meta = gen.block_panel(rng, n_units=int(rng.integers(10, 22)), n_periods=int(rng.integers(4, 7)), n_treated=int(rng.integers(2, 5)),
                              noise=noise, min_pre=2, **kw)
    times, s = meta["times"], meta["cohorts"][0]
    p = {"alpha": alpha_of(rng)}
    post = [t for t in times if t >= s]
    if maybe(rng, .4):
        p["robust"] = maybe(rng)
    if which == "timing":
        return Case("diag", d, {"outcome": "y", "treatment": "ever", "time": "time"}, func=dd.placebo_timing_test, params=p,
                    opts={"fake_treatment_period": pick(rng, *[t for t in times if t < s][1:]), "post_periods": post},
                    time_kw=("fake_treatment_period", "post_periods"), tag=":timing")
    if which == "group":
        ctl = sorted(d.loc[d.ever == 0, "unit"].unique(), key=str)
        k = int(rng.integers(2, max(3, len(ctl) - 3)))
        return Case("diag", d, {"outcome": "y", "treatment": "ever", "time": "time", "unit": "unit"}, func=dd.placebo_group_test, params=p,
                    opts={"fake_treated_units": [ctl[i] for i in rng.choice(len(ctl), k, replace=False)], "post_periods": post},
                    time_kw=("post_periods",), unit_kw=("fake_treated_units",), tag=":group")
    cols = {"outcome": "y", "treatment": "ever", "time": "post", "unit": "unit"}
    if which == "permutation":
        return Case("diag", d, cols, func=dd.permutation_test, params={**p, "n_permutations": 15, "seed": int(rng.integers(1e6))}, seeded=True, tag=":permutation")
    return Case("diag", d, cols, func=dd.leave_one_out_test, params=p, tag=":loo")


def ptrend(rng, tier="quick", noise=1.0, which=None, **kw):
    which = which or pick(rng, "simple", "robust", "equivalence")
    d, meta = gen.block_panel(rng, n_units=int(rng.integers(12, 30)), n_periods=int(rng.integers(5, 8)), n_treated=int(rng.integers(4, 7)),
                              noise=noise, min_pre=3, **kw)
    pre = [t for t in meta["times"] if t < meta["cohorts"][0]]
    cols = {"outcome": "y", "time": "time", "treatment": "ever"}
    o = {"pre_periods": pre} if maybe(rng, .8) else {}
    rn = {"treatment": "treatment_group"}
    if which == "simple":
        return Case("ptrend", d, cols, func=dd.check_parallel_trends, opts=o, rename=rn, time_kw=("pre_periods",), tag=":simple")
    cols["unit"] = "unit"
    if which == "robust":
        return Case("ptrend", d, cols, func=dd.check_parallel_trends_robust, opts=o, rename=rn, seeded=True,
                    params={"n_permutations": 40, "seed": int(rng.integers(1e6))}, time_kw=("pre_periods",), tag=":robust")
    return Case("ptrend", d, cols, func=dd.equivalence_test_trends, opts=o, rename=rn, time_kw=("pre_periods",), tag=":equivalence")


def _pre(rng, noise, kw, kinds=("mp", "cs", "sa")):
    """A fit with several pre-period effects."""
    w = pick(rng, *kinds)
    if w == "mp":
        d, meta = gen.block_panel(rng, n_units=int(rng.integers(14, 30)), n_periods=int(rng.integers(5, 8)), noise=noise, min_pre=3, **kw)
        cols = {"outcome": "y", "treatment": "ever", "time": "time"}
        # all periods get an interaction so that pre-period coefficients exist
        return Case("mp", d, cols, dd.MultiPeriodDiD, mp_params(rng, cols), opts={"post_periods": meta["times"][1:]}, time_kw=("post_periods",)), meta
    c = (cs if w == "cs" else sa)(rng, noise=noise, boot=False, **({"agg": "event_study"} if w == "cs" else {}),
                                  **{"cohorts": [3, 4], "n_periods": int(rng.integers(6, 8)), "n_units": 30, **kw})
    c.params["anticipation"] = 0
    c.opts.pop("balance_e", None)
    return c, None


def honest(rng, tier="quick", noise=1.0, **kw):
    c, meta = _pre(rng, noise, kw, ("mp", "cs"))
    hp = {"method": pick(rng, "smoothness", "relative_magnitude", "combined"), "M": float(pick(rng, 0.0, .5, 1.0)), "alpha": alpha_of(rng)}
    c.chain = lambda r: dd.HonestDiD(**hp).fit(r)
    c.kind, c.tag = "honest", f":{c.kind}:{hp}"
    return c


def pretr(rng, tier="quick", noise=1.0, **kw):
    c, meta = _pre(rng, noise, kw)
    pp = {"alpha": alpha_of(rng), "power": float(pick(rng, .8, .5, .95)), "violation_type": pick(rng, "linear", "constant", "last_period")}
    fk = {}
    if c.kind == "mp":
        s = meta["cohorts"][0]
        fk["pre_periods"] = [t for t in meta["times"][1:] if t < s]
    c.pre_fk = fk
    c.chain = lambda r: dd.PreTrendsPower(**pp).fit(r, **fk)
    c.time_kw = None                       # the chain holds time labels: no relabelling of time
    c.kind, c.tag = "pretrends", f":{c.kind}:{pp}"
    return c


ZOO = {"did": did, "twfe": twfe, "mp": mp, "cs": cs, "sa": sa, "bacon": bacon, "sdid": sdid, "ddd": ddd, "trop": trop,
       "diag": diag, "ptrend": ptrend, "honest": honest, "pretrends": pretr}
COST = {"sa": 0.5, "trop": 0.4, "sdid": 0.6}
