"""C21: the layout of the data frame never matters."""
import re
import numpy as np
import pandas as pd

from mon import refs, zoo, gen
from mon.gen import pick, maybe
import diff_diff as dd

RULE = ("every estimator and diagnostic (13 families, random options and label types) refitted after shuffling rows, replacing the index (duplicated, string, dates, multi), permuting and adding columns (including names the library uses "
        "internally), renaming columns, relabelling units / clusters / fixed-effect groups (order-preserving and order-changing; integers, strings, negatives, dates, categories) and periods, and changing the numeric dtype of every identifier, indicator and "
        "whole-number outcome (signed, unsigned, float, nullable, bool, object); non-trivial = distinct (family, transformation) pair")
NOTE = ("Every numeric leaf of the result object (labels mapped back) is compared with the untransformed fit; the input frame is fingerprinted around every fit.  Seeded draws are required to survive every transformation that keeps the order of the "
        "labels; when an order-changing relabelling permutes which unit receives which draw, only the non-random part is compared.")
REQUIRED = {"rows": 150, "index": 150, "columns": 150, "renamed": 80, "units": 80, "clusters": 25, "periods": 60, "dtype": 200, "input-untouched": 800}

ROWS = ("residuals", "fitted_values")            # row-ordered payloads
RANDOM = ("se", "p_value", "t_stat", "conf_int", "ci", "bootstrap", "placebo", "distribution", "significan", "stars", "std", "permut", "wasserstein_p", "mean", "n_", "lb", "ub", "loocv")
TEMP = ["_treatment", "_post", "_treat_post", "_rel_time", "_fake_post", "_fake_treated", "_did_interaction", "treatment_post", "_D", "_y", "interaction", "const", "period", "cohort",
        "index", "level_0", "effect", "_effect", "y_demeaned", "_demeaned", "_time", "_unit", "treated_post", "event_time", "rel_time", "_first_treat", "weight", "unit_id", "D_demeaned", "_tt", "_never_treated",
        "placebo_treatment", "_placebo", "fake_treated", "group", "subgroup", "treat", "is_treated", "outcome_change", "delta_y", "_is_treated"]


def tidy(s):
    return re.sub(r"(\d)\.0(?!\d)", r"\1", s)


TIMEVALS = (".groups", ".time_periods", ".pre_periods", ".post_periods", ".reference_period", ".periods", "treatment_time", "actual_treatment_period", "timing_groups", "first_treat", "control_group", "treated_group",
            "fake_period", "notes", ".time_window", "=].period", "=[group]")


def leaves(r, keymap=None):
    f = {tidy(k): (tidy(v) if isinstance(v, str) else v) for k, v in zoo.flat(r, keymap).items()}
    out = {k: v for k, v in f.items() if not any(f".{w}[" in k for w in ROWS)}
    for w in ROWS:
        v = sorted(x for k, x in f.items() if f".{w}[" in k and isinstance(x, float) and x == x)
        out.update({f".{w}:sorted[{i}]": x for i, x in enumerate(v)})
    return out


def parent(k):
    i = k.rfind("[#")
    return k[:i] if i >= 0 else None


def differ(a, b, scale, rtol=1e-6, drop=()):
    """Paths at which two flattened results differ beyond rounding."""
    ok = lambda k: not any(k.endswith(w[1:]) if w[0] == "=" else w in k.lower() for w in drop)
    ka, kb = {k for k in a if ok(k)}, {k for k in b if ok(k)}
    bad = [(k, a.get(k, "absent"), b.get(k, "absent")) for k in sorted(ka ^ kb)]

    def eq(x, y):
        if isinstance(x, float) and isinstance(y, float):
            return x == y or (x != x and y != y) or abs(x - y) <= rtol * max(abs(x), abs(y)) + 1e-8 * scale
        return x == y
    lists = {}
    for k in sorted(ka & kb):
        if not eq(a[k], b[k]):
            bad.append((k, a[k], b[k]))
            if parent(k):
                lists[parent(k)] = 1
    for p in lists:                       # the same members in another order
        x, y = ([v for k, v in sorted(q.items()) if k.startswith(p + "[#") and "[" not in k[len(p) + 2:]] for q in (a, b))
        if len(x) != len(y):
            continue
        if all(isinstance(v, str) for v in x + y):
            okl = sorted(x) == sorted(y)
        else:
            okl = all(isinstance(v, float) for v in x + y) and all(map(eq, sorted(x), sorted(y)))
        if okl:
            bad = [t for t in bad if parent(t[0]) != p]
    return bad


def canon(v):
    """Text of a label that ignores the numeric dtype."""
    try:
        f = float(v)
        return f
    except (TypeError, ValueError):
        return str(v)


def column_list(c):
    out = []
    for v in c.cols.values():
        out += v if isinstance(v, list) else ([v] if v is not None else [])
    return list(dict.fromkeys(out))


DT = {"int": ["int8", "int16", "int32", "int64", "float32", "float64", "uint8", "uint16", "uint32", "uint64", "Int64", "UInt16", "Float64"],
      "bin": ["bool", "int8", "uint8", "float64", "float32", "int32", "uint64", "Int64", "boolean", "UInt8"]}


def fits(s, t):
    v = s.to_numpy()
    if t in ("bool", "boolean"):
        return set(np.unique(v)) <= {0, 1}
    if not np.all(np.isfinite(v.astype(float))):
        return t in ("float64", "float32", "Float64")
    if t.lower().startswith(("int", "uint")):
        ii = np.iinfo(t.lower())
        return v.min() >= ii.min and v.max() <= ii.max
    if t == "float32":
        return np.all(np.abs(v) < 2 ** 20)
    return True


def transform(rng, c, what):
    """-> (case, keymap of the original, keymap of the new, drop)"""
    d = c.df
    n = len(d)
    if what == "rows":
        return c.with_(df=d.iloc[rng.permutation(n)]), "", {}
    if what == "index":
        style = int(rng.integers(6))
        e = d.copy()
        e.index = [pd.Index([f"r{i}" for i in rng.permutation(n)]), pd.Index(rng.integers(0, max(2, n // 3), n)), pd.date_range("2001-01-01", periods=n)[::-1],
                   pd.MultiIndex.from_arrays([rng.integers(0, 3, n), rng.permutation(n)], names=["k1", "k2"]), pd.Index(rng.permutation(n), name="k"),
                   pd.Index(rng.normal(size=n))][style]
        return c.with_(df=e), f"style {style}", {}
    if what == "columns":
        e = d.copy()
        for nm in {TEMP[i] for i in rng.choice(len(TEMP), 8, replace=False)}:
            if nm not in e:
                e[nm] = pick(rng, rng.normal(size=n), np.nan, "junk", rng.integers(0, 9, n), pd.Timestamp("2020-01-01"), None)
        return c.with_(df=e[[e.columns[i] for i in rng.permutation(e.shape[1])]]), "extra columns", {}
    if what == "renamed":
        cols = [x for x in column_list(c)]
        wild = not isinstance(c, zoo.FormulaCase) and "fixed_effects" not in c.cols
        names = [f"{pick(rng, 'col', 'V', 'a b', 'x.', 'Zürich ', 'treat', 'C(', 'a:b', '(')}{i}" if wild else f"v_{i}" for i in rng.permutation(len(cols))]
        m = dict(zip(cols, names))
        other = [x for x in c.df if x not in cols]
        if maybe(rng, .3) and other:                # swap a used name with an unused one
            m[cols[0]], m[other[0]] = other[0], "left_over"
        return c.renamed(m), f"renamed {m}", {v: k for k, v in m.items()}
    raise KeyError(what)


def labels_of(rng, vals, monotone):
    """A relabelling of values (dict)."""
    vals = sorted(vals)
    n = len(vals)
    style = pick(rng, "int", "str", "float", "date", "tuple", "neg")
    raw = {"int": lambda: sorted((10 ** 6 + rng.choice(20 * n + 50, n, replace=False)).tolist()), "str": lambda: [f"k{i:05d}" for i in range(n)], "float": lambda: [round(10 ** 6 + .25 + 1.5 * i, 3) for i in range(n)],
           "date": lambda: list(pd.date_range("1999-12-31", periods=n, freq="D")), "tuple": lambda: [f"a b/{i:04d}" for i in range(n)], "neg": lambda: [int(-10 ** 6 + 3 * i) for i in range(n)]}[style]()
    if not monotone:
        raw = [raw[i] for i in rng.permutation(n)]
    return dict(zip(vals, raw)), style


def k_layout(mon, rng, tier):
    kind = pick(rng, *zoo.ZOO)
    c = zoo.ZOO[kind](rng, tier)
    y = c.cols["outcome"]
    whole = maybe(rng, .5)
    if whole:
        lo = c.df[y].min()
        c.df[y] = np.round((c.df[y] - lo) * (200 / max(c.df[y].max() - lo, 1e-9))).astype("int64")
        if kind == "trop":
            whole, c = False, c
            c.df[y] = c.df[y] / 40.0
    mon.describe(kind=kind, case=str(c)[:500])
    scale = float(np.abs(c.df[y].astype(float)).max())
    rtol = 2e-5 if kind in ("honest", "trop", "pretrends") else 1e-6

    def fit(k):
        f = zoo.freeze(k.df)
        try:
            return k.fit()
        finally:
            mon.check("input-untouched", zoo.freeze(k.df) == f, f"{kind} modified its input frame: {str(c)[:300]}")
    base = fit(c)

    def compare(k, what, note, keymap=None, back=None, drop=()):
        r = fit(k)
        a, b = leaves(base, back), leaves(r, keymap)
        bad = differ(a, b, scale, rtol, drop)
        mon.check(what, not bad, f"{str(c)[:330]}: {what} {note} changes {[(p, x, z) for p, x, z in bad[:4]]} ({len(bad)})")
        mon.state(kind + c.tag[:12], what)

    todo = ["rows", "index", "columns", "renamed"]
    for what in [todo[i] for i in rng.choice(4, 2, replace=False)]:
        k, note, back = transform(rng, c, what)
        km = (lambda s: untangle(s, back)) if back else None
        compare(k, what, note, keymap=km)

    # dtype of identifiers, indicators and whole-number outcomes
    used, fe = column_list(c), c.cols.get("fixed_effects") or []          # (dummy names show the dtype)
    for _ in range(2):
        e, note = c.df.copy(), {}
        for col in used:
            s = c.df[col]
            if s.dtype.kind not in "iu" and not (s.dtype.kind == "f" and np.all((s == np.floor(s)))):
                continue
            if (col == y and not whole) or col in fe:
                continue
            if maybe(rng, .45):
                t = pick(rng, *[t for t in DT["bin" if set(s.unique()) <= {0, 1} else "int"] if fits(s, t)])
                e[col], note[col] = s.astype(t), t
        if note:
            compare(c.with_(df=e), "dtype", note, keymap=canon_leaf, back=canon_leaf)

    # units
    if "unit" in c.cols and c.unit_kw is not None:
        mono = maybe(rng, .6) or (kind == "trop" and len(c.params["lambda_unit_grid"]) > 1)      # the cross-validation cells are drawn
        u = c.df[c.cols["unit"]].unique().tolist()
        m, style = labels_of(rng, u, mono)
        cat = maybe(rng, .15)
        k = c.relabelled("unit", m.get)
        if cat:
            k.df[k.cols["unit"]] = pd.Categorical(k.df[k.cols["unit"]])
        inv = {canon(v): kx for kx, v in m.items()}
        inv.update({str(v): kx for kx, v in m.items()})
        compare(k, "units", f"{style} {'order kept' if mono else 'order changed'}{' category' if cat else ''}", keymap=lambda v: unlabel(v, inv), drop=("fake_group", "unit_effects") + (RANDOM if (c.seeded and not mono) else ()))

    # periods: a shift for everyone, other labels in the same order where periods are only labels
    tv = c.df[c.cols["time"]].unique().tolist()
    if c.time_kw is not None and not isinstance(c, zoo.FormulaCase) and not set(tv) <= {0, 1} and maybe(rng, .6):
        lab = sorted(tv)
        free = kind in ("mp", "sdid", "trop", "twfe") or c.tag in (":timing", ":group", ":robust", ":equivalence")
        style = pick(rng, "shift", "str", "date", "spread") if free else "shift"
        if kind == "trop" and c.params["lambda_time_grid"] != [0.0]:
            style = "shift"
        f = {"shift": lambda t: t + 70000, "str": lambda t: f"Q{lab.index(t):05d}", "date": lambda t: pd.Timestamp("1999-12-31") + pd.Timedelta(days=lab.index(t)),
             "spread": lambda t: 70000 + 10 * lab.index(t) ** 2}[style]
        inv = {str(f(t)): t for t in lab}
        inv.update({canon(f(t)): t for t in lab})
        txt = {str(f(t)): str(t) for t in lab}
        compare(c.relabelled("time", f), "periods", style, keymap=lambda v: untangle(v, txt) if isinstance(v, str) and v not in inv else unlabel(v, inv),
                back=lambda v: str(v) if isinstance(v, pd.Timestamp) else v, drop=TIMEVALS)

    # clusters and fixed-effect groups
    g = [x for x in [c.cols.get("cluster")] + list(c.cols.get("absorb") or []) + list(c.cols.get("fixed_effects") or []) if x and x not in (c.cols.get("unit"), c.cols.get("time"))]
    if g:
        e, note = c.df.copy(), {}
        mono = maybe(rng)
        for col in g:
            m, style = labels_of(rng, e[col].unique().tolist(), mono)
            e[col], note[col] = [m[v] for v in e[col]], style
        drop = ["coefficients", "vcov"] if "fixed_effects" in c.cols else []      # dummy names and the dropped reference level follow the labels
        compare(c.with_(df=e), "clusters", f"{note} {'order kept' if mono else 'order changed'}", drop=list(drop) + (list(RANDOM) if (c.seeded and not mono) else []))


def canon_leaf(v):
    if isinstance(v, tuple):
        return v
    return canon(v) if not isinstance(v, (bool, np.bool_)) else float(v)


def unlabel(v, inv):
    if isinstance(v, tuple):
        return v
    try:
        if v in inv:
            return inv[v]
    except TypeError:
        pass
    c = canon(v)
    return inv.get(c, inv.get(str(v), v))


CHOICES = ("never_treated", "not_yet_treated", "treated_vs_never", "earlier_vs_later", "later_vs_earlier")


def untangle(s, back):
    """A label containing renamed column names, mapped back."""
    if not isinstance(s, str):
        return s
    if s in back:
        return back[s]
    for new in sorted(back, key=len, reverse=True):
        if new in s and s not in CHOICES:
            s = s.replace(new, f"\0{list(back).index(new)}\0")
    for i, new in enumerate(back):
        s = s.replace(f"\0{i}\0", back[new])
    return s


KINDS = {"layout": (k_layout, 600, 7000)}
