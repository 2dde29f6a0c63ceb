"""C19: data-preparation helpers conserve the data."""
import warnings
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, unit_labels
from diff_diff import prep

RULE = ("frames of 0-60 units and 1-8 periods; labels int/str/negative/category, times int/str/date/period/float, outcomes int/float with missing cells, extra columns, duplicates, "
        "permuted rows, arbitrary index; every helper and option; non-trivial = distinct (helper, dtype, option, shape) state")
NOTE = "Every output cell is looked up in the input by hand (dictionaries keyed by unit and period), the input frame compared before and after each call."
SCALE = 3                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"indicator": 60, "post": 60, "long": 60, "balance": 60, "validate": 60, "summary": 40, "event-time": 60, "cohorts": 40, "ranking": 60, "candidates": 40, "untouched": 300, "refuses": 30}


def run(mon, df, fn):
    before = df.copy(deep=True)
    r = fn()
    mon.check("untouched", df.equals(before) and list(df.columns) == list(before.columns) and df.index.equals(before.index) and (df.dtypes == before.dtypes).all(), "input frame modified")
    return r


def is_na(x):
    return x is None or x is pd.NaT or x is pd.NA or (isinstance(x, (float, np.floating)) and np.isnan(x))


def eq(a, b):
    return (is_na(a) and is_na(b)) or (not is_na(a) and not is_na(b) and a == b)


def times_of(rng, T):
    k = pick(rng, "int", "year", "str", "date", "date", "period", "float", "neg")
    y0 = 1990
    if k == "int":
        v = list(range(T))
    elif k == "year":
        v = list(range(y0, y0 + T))
    elif k == "str":
        v = [f"t{9-i}" for i in range(T)][::-1]
    elif k == "date":
        v = list(pd.date_range("2019-11-01", periods=T, freq=pick(rng, "MS", "D", "7h")))
    elif k == "period":
        v = list(pd.period_range("2019Q3", periods=T, freq="Q"))
    elif k == "float":
        v = [0.5 + i for i in range(T)]
    else:
        v = [i - T for i in range(T)]
    return k, v


def shuffle_index(rng, df):
    df = df.iloc[rng.permutation(len(df))]
    if maybe(rng):
        df.index = rng.integers(-5, 50, len(df)) if maybe(rng) else [f"r{i}" for i in range(len(df))]
    return df


def container(rng, vals):
    k = pick(rng, "list", "tuple", "set", "array", "series", "index")
    vals = list(vals)
    obj = {"list": lambda: vals, "tuple": lambda: tuple(vals), "set": lambda: set(vals), "array": lambda: pd.Series(vals).to_numpy(),
           "series": lambda: pd.Series(vals, index=range(7, 7 + len(vals))), "index": lambda: pd.Index(vals)}[k]()
    return k, obj


def rest_same(mon, name, df, r, new):
    old = [c for c in df.columns if c != new]
    mon.check(name, len(r) == len(df) and r.index.equals(df.index) and r[old].equals(df[old]) and set(r.columns) == set(df.columns) | {new}, "other columns, rows or index changed")


def k_indicator(mon, rng, tier):
    n = int(rng.integers(1, 60))
    kind = pick(rng, "str", "int", "float", "cat", "bool")
    base = {"str": lambda: rng.choice(list("abcde"), n), "int": lambda: rng.integers(-3, 6, n), "float": lambda: rng.integers(-3, 6, n) / 2, "cat": lambda: pd.Categorical(rng.choice(list("abcde"), n)),
            "bool": lambda: rng.integers(0, 2, n).astype(bool)}[kind]()
    df = shuffle_index(rng, pd.DataFrame({"g": base, "y": rng.normal(size=n)}))
    if kind == "float" and maybe(rng):
        df["g"] = df["g"].where(rng.random(n) > 0.2)
    new = pick(rng, "treated", "D", "y")
    if kind in ("int", "float") and maybe(rng):
        thr, above = float(pick(rng, -1, 0, 1.5, 2)), maybe(rng)
        r = run(mon, df, lambda: prep.make_treatment_indicator(df, "g", threshold=thr, above_threshold=above, new_column=new))
        want = [0 if is_na(v) else int(v >= thr if above else v <= thr) for v in df["g"]]
        st = ("thr", above)
    else:
        u = sorted({v for v in df["g"] if not is_na(v)}, key=str)
        if not u:
            return
        if maybe(rng, 0.3):
            v = u[int(rng.integers(len(u)))]
            st, arg, chosen = "scalar", v, {v}
        else:
            chosen = {v for v in u if maybe(rng)}
            extra = {"str": "zz", "cat": "zz"}.get(kind, 77)
            as_float = kind == "int" and maybe(rng, 0.3)             # 2.0 names the same value as 2
            st, arg = container(rng, [float(v) if as_float else v for v in chosen] + ([extra] if maybe(rng, 0.3) and kind != "bool" else []))
        r = run(mon, df, lambda: prep.make_treatment_indicator(df, "g", treated_values=arg, new_column=new))
        want = [int(v in chosen) for v in df["g"]]
    rest_same(mon, "indicator", df, r, new)
    mon.check("indicator", list(r[new]) == want and r[new].dtype.kind == "i", f"{kind} {st}: {list(r[new])[:8]} != {want[:8]}")
    mon.state("ind", kind, str(st), new)


def k_post(mon, rng, tier):
    n, T = int(rng.integers(1, 60)), int(rng.integers(1, 8))
    kind, tv = times_of(rng, T)
    t = rng.integers(0, T, n)
    df = shuffle_index(rng, pd.DataFrame({"t": pd.Series([tv[i] for i in t]), "y": rng.normal(size=n)}))
    tt = list(df["t"])
    asstr = kind == "date" and maybe(rng)
    form = str if asstr else (lambda v: v)
    new = pick(rng, "post", "P")
    if maybe(rng):
        s = tv[int(rng.integers(T))]
        r = run(mon, df, lambda: prep.make_post_indicator(df, "t", treatment_start=form(s), new_column=new))
        want, st = [int(v >= s) for v in tt], "start"
    elif maybe(rng, 0.3):
        s = tv[int(rng.integers(T))]
        r = run(mon, df, lambda: prep.make_post_indicator(df, "t", post_periods=form(s), new_column=new))
        want, st = [int(v == s) for v in tt], "scalar"
    else:
        chosen = [v for v in tv if maybe(rng)] or [tv[-1]]
        st, arg = container(rng, [form(v) for v in chosen])
        r = run(mon, df, lambda: prep.make_post_indicator(df, "t", post_periods=arg, new_column=new))
        want = [int(v in chosen) for v in tt]
    rest_same(mon, "post", df, r, new)
    mon.check("post", list(r[new]) == want and r[new].dtype.kind == "i", f"{kind} {st} asstr={asstr}: {list(r[new])[:8]} != {want[:8]} for {tt[:8]}")
    mon.state("post", kind, st, asstr)


def k_long(mon, rng, tier):
    n, T = int(rng.integers(1, 40)), int(rng.integers(1, 7))
    lab = unit_labels(rng, n)
    kind, tv = times_of(rng, T)
    cols = [f"v{j}" for j in range(T)] if maybe(rng) else [2000 + j for j in range(T)]
    d = {"id": lab}
    dt = pick(rng, "float", "int", "nan", "str")
    for c in cols:
        d[c] = {"float": lambda: rng.normal(size=n), "int": lambda: rng.integers(0, 9, n), "nan": lambda: np.where(rng.random(n) < 0.3, np.nan, rng.normal(size=n)), "str": lambda: rng.choice(list("xyz"), n)}[dt]()
    extra = {"region": rng.choice(list("pq"), n), "variable": rng.integers(0, 4, n), "time_values": rng.normal(size=n)}
    for k in list(extra):
        if maybe(rng):
            d[k] = extra[k]
    df = pd.DataFrame(d)
    df = shuffle_index(rng, df[[df.columns[i] for i in rng.permutation(len(df.columns))]])
    order = [cols[i] for i in rng.permutation(T)] if maybe(rng, 0.3) else list(cols)
    tvs = None if maybe(rng, 0.3) else [tv[i] for i in (rng.permutation(T) if maybe(rng, 0.3) else range(T))]
    tn, vn = pick(rng, "period", "year"), pick(rng, "value", "y")
    r = run(mon, df, lambda: prep.wide_to_long(df, order, "id", time_name=tn, value_name=vn, time_values=tvs))
    tt = list(range(T)) if tvs is None else tvs
    others = [c for c in df.columns if c != "id" and c not in cols]
    mon.check("long", list(r.columns) == ["id", tn, vn] + others and len(r) == n * T, f"shape {r.shape} columns {list(r.columns)}")
    want = {}
    for rec in df.to_dict("records"):
        for c, t in zip(order, tt):
            want[rec["id"], t] = (rec[c],) + tuple(rec[o] for o in others)
    got = {}
    for rec in r.to_dict("records"):
        got.setdefault((rec["id"], rec[tn]), []).append((rec[vn],) + tuple(rec[o] for o in others))
    mon.check("long", set(got) == set(want) and all(len(v) == 1 for v in got.values()), f"units/periods differ: {len(got)} vs {len(want)}")
    mon.check("long", all(all(eq(a, b) for a, b in zip(got[k][0], want[k])) for k in want if k in got), "a cell was misplaced or changed")
    mon.check("long", list(r.index) == list(range(len(r))), f"row labels {list(r.index)[:6]} are not 0..{len(r) - 1}")
    mon.check("long", r.groupby("id", sort=False)[tn].apply(lambda s: list(s) == sorted(s)).all(), "periods not in order within unit")
    mon.state("long", kind, dt, tvs is None, len(others), order == cols)
    if maybe(rng, 0.4):
        bad = pick(rng, "dup", "id", "missing", "len", "empty", "clash")
        f = {"dup": lambda: prep.wide_to_long(df, order + [order[0]], "id"), "id": lambda: prep.wide_to_long(df, order + ["id"], "id"), "missing": lambda: prep.wide_to_long(df, order + ["nope"], "id"),
             "len": lambda: prep.wide_to_long(df, order, "id", time_values=list(range(T + 1))), "empty": lambda: prep.wide_to_long(df, [], "id"),
             "clash": lambda: prep.wide_to_long(df.assign(region=1), order, "id", time_name="region")}[bad]
        mon.raises("refuses", (ValueError,), f, f"wide_to_long {bad}")


def k_balance(mon, rng, tier):
    n, T = int(rng.integers(1, 25)), int(rng.integers(1, 7))
    lab = unit_labels(rng, n)
    kind, tv = times_of(rng, T)
    u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n)
    df = pd.DataFrame({"u": pd.Series([lab[i] for i in u]), "t": pd.Series([tv[i] for i in t])})
    df["y"] = rng.normal(size=len(df))
    df["k"] = rng.integers(0, 5, n)[u]
    df["s"] = rng.choice(list("ab"), len(df))
    if maybe(rng, 0.4):
        df["y"] = df["y"].where(rng.random(len(df)) > 0.15)
    df = df[rng.random(len(df)) < pick(rng, 1.0, 0.95, 0.8, 0.5)]
    if not len(df):
        return
    if maybe(rng, 0.2):
        df["u"] = df["u"].astype("category")
    df = shuffle_index(rng, df)
    method = pick(rng, "inner", "outer", "fill", "fill0")
    df["k"] = df["k"].astype(pick(rng, "int64", "int64", "int8", "float32", "Int64"))
    if method == "inner" and maybe(rng, 0.4):                    # a unit observed twice in one period and missing in another is not complete
        d2 = pd.concat([df, df.iloc[rng.integers(0, len(df), int(rng.integers(1, 4)))]])
        d2 = shuffle_index(rng, d2)
        r = run(mon, d2, lambda: prep.balance_panel(d2, "u", "t", method="inner"))
        seen = {}
        for a, b in zip(d2.u, d2.t):
            seen.setdefault(a, set()).add(b)
        want = d2[[len(seen[a]) == len(set(d2.t)) for a in d2.u]]
        mon.check("balance", r.equals(want) and r.index.equals(want.index), f"inner with repeated rows keeps {len(r)} rows, complete units have {len(want)}")
        mon.state("bal", "repeated rows", len(want) == len(d2))
    kw = dict(method="fill", fill_value=float(pick(rng, 0, -1, 7))) if method == "fill0" else dict(method=method)
    r = run(mon, df, lambda: prep.balance_panel(df, "u", "t", **kw))
    cell = {(a, b): (y, k, s) for a, b, y, k, s in zip(df.u, df.t, df.y, df.k, df.s)}
    units, periods = set(df.u), set(df.t)
    full = {a for a in units if all((a, b) in cell for b in periods)}
    keys = list(zip(r.u, r.t))
    mon.check("balance", list(r.columns) == list(df.columns), f"columns {list(r.columns)}")
    if method == "inner":
        mon.check("balance", sorted(map(str, keys)) == sorted(str((a, b)) for a in full for b in periods), f"inner keeps {len(keys)} of {len(full)}x{len(periods)}")
        keep = df[[a in full for a in df.u]]
        mon.check("balance", r.index.equals(keep.index) and r.equals(keep), "inner changed a kept row")
    else:
        mon.check("balance", len(keys) == len(units) * len(periods) and set(keys) == {(a, b) for a in units for b in periods}, f"{method}: {len(keys)} rows for {len(units)}x{len(periods)}")
    rank = {b: i for i, b in enumerate(sorted(periods))}
    by_unit = {a: sorted(((rank[b], v) for (x, b), v in cell.items() if x == a), key=lambda z: z[0]) for a in units}
    bad = []
    for a, b, *v in zip(r.u, r.t, r.y, r.k, r.s):
        orig = cell.get((a, b))
        for j in range(3):
            o = orig[j] if orig is not None else np.nan
            if not is_na(o):
                want = o
            elif method in ("inner", "outer"):
                want = np.nan
            elif method == "fill0":
                want = kw["fill_value"] if j < 2 else np.nan
            else:                                                # last earlier known value of the unit, else the first later one
                known = [(i, w[j]) for i, w in by_unit[a] if not is_na(w[j])]
                prev = [w for i, w in known if i < rank[b]]
                want = prev[-1] if prev else (known[0][1] if known else np.nan)
            if not eq(v[j], want):
                bad.append((a, b, j, v[j], want))
    mon.check("balance", not bad, f"{method} {kind}: {bad[:3]}")
    mon.describe(method=method, times=kind, rows_in=len(df), rows_out=len(r), complete_units=len(full))
    mon.state("bal", method, kind, len(full) == len(units), str(df.u.dtype))


def k_validate(mon, rng, tier):
    n, T = int(rng.integers(2, 20)), int(pick(rng, 2, 2, 3, 5))
    u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n)
    base = int(pick(rng, 0, 1, 2000))
    tr = np.zeros(n, int)
    tr[: int(rng.integers(0, n + 1))] = 1
    df = pd.DataFrame({"u": u, "t": t + base, "d": tr[u], "y": rng.normal(size=len(u))})
    df = df[rng.random(len(df)) < pick(rng, 1.0, 0.7, 0.3)].reset_index(drop=True)
    if len(df) < 3:
        return
    fault = pick(rng, "none", "none", "nan_y", "nan_d", "nan_t", "nonbinary", "mixed", "text_y", "column", "switch", "bool", "float", "inf")
    i = int(rng.integers(len(df)))
    if fault.startswith("nan_"):
        c = fault[-1]
        df[c] = df[c].astype(float)
        df.loc[i, c] = np.nan
    elif fault == "nonbinary":
        df.loc[i, "d"] = pick(rng, 2, -1, 5)
    elif fault == "mixed":
        df["d"] = df["d"].astype(object)
        df.loc[i, "d"] = "yes"
    elif fault == "text_y":
        df["y"] = df["y"].astype(str)
    elif fault == "inf":
        df.loc[i, "y"] = pick(rng, np.inf, -np.inf)
    elif fault == "switch":
        df["d"] = ((df.t - base) >= T - 1).astype(int)
    elif fault == "bool":
        df["d"] = df["d"].astype(bool)
    elif fault == "float":
        df["d"] = df["d"].astype(float)
    df = shuffle_index(rng, df)
    names = dict(outcome="y", treatment="d", time="t", unit=pick(rng, None, "u"))
    if fault == "column":
        names[pick(rng, "outcome", "treatment", "time")] = "nope"
    r = run(mon, df, lambda: prep.validate_did_data(df, raise_on_error=False, **names))
    broken = fault in ("nan_y", "nan_d", "nan_t", "nonbinary", "mixed", "text_y", "column", "inf")
    if not broken:
        d = df.d.astype(int)
        per = sorted(set(df.t))
        if len(per) == 2:
            broken = any(not ((d == g) & (df.t == p)).any() for g in (0, 1) for p in per)
        else:
            broken = any(df.t[d == g].nunique() < 2 for g in (0, 1))
        if not broken:
            s = r["summary"]
            want = dict(n_obs=len(df), n_treated=int((d == 1).sum()), n_control=int((d == 0).sum()), n_periods=len(per))
            if names["unit"]:
                want["n_units"] = df.u.nunique()
            mon.check("validate", s == want, f"summary {s} != {want}")
            text = " ".join(r["warnings"])
            if names["unit"]:
                mon.check("validate", ("within" in text) == bool((df.groupby("u").d.nunique() > 1).any()), f"switching not reported correctly: {text}")
                nper = df.groupby("u").t.nunique()
                mon.check("validate", ("nbalanced" in text) == (nper.min() != nper.max()), f"imbalance not reported correctly: {text}")
            mon.check("validate", ("not 0 and 1" in text) == (len(per) == 2 and set(per) != {0, 1}), f"time coding: {text}")
    mon.check("validate", r["valid"] == (not broken) and bool(r["errors"]) == broken, f"{fault}: valid={r['valid']} errors={r['errors']} want valid={not broken}")
    try:
        prep.validate_did_data(df, **names)
        raised = False
    except ValueError:
        raised = True
    mon.check("validate", raised == broken, f"{fault}: raised={raised}, broken={broken}")
    mon.state("val", fault, T, broken, names["unit"])


def k_summary(mon, rng, tier):
    n, T = int(rng.integers(2, 20)), int(pick(rng, 2, 2, 3, 5))
    kind, tv = times_of(rng, T)
    u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n)
    d = np.zeros(n, int)
    d[: int(rng.integers(1, n))] = 1
    df = pd.DataFrame({"u": u, "t": pd.Series([tv[i] for i in t]), "d": d[u], "y": rng.normal(10, 5, len(u)), "x": rng.normal(size=len(u))})
    keep = rng.random(len(df)) < pick(rng, 1.0, 0.8)
    df, ti = df[keep], t[keep]
    if len(df.groupby(["d", "t"])) < 2 * T:
        return
    if maybe(rng, 0.3):
        df["y"] = df["y"].where(np.arange(len(df)) != int(rng.integers(len(df))))
    df = df.assign(_i=ti)
    df = shuffle_index(rng, df)
    s = run(mon, df, lambda: prep.summarize_did_data(df, "y", "d", "t"))
    cells = {}
    for g in (0, 1):
        for i in range(T):
            cells[g, i] = df.y[(df.d == g) & (df._i == i)].dropna().to_numpy()
    name = {0: "Control", 1: "Treated"}
    for (g, i), v in cells.items():
        lab = f"{name[g]} - " + (("Pre", "Post")[i] if T == 2 else f"Period {tv[i]}")
        mon.check("summary", list(s.index).count(lab) == 1, f"row {lab} missing or repeated in {list(s.index)}")
        if lab in s.index and len(v):
            row = s.loc[lab]
            mon.close("summary", [float(row["n"]), float(row["mean"]), float(row["min"]), float(row["max"])], [len(v), v.mean(), v.min(), v.max()], rtol=0, atol=6e-5, msg=lab)
            if len(v) > 1:
                mon.close("summary", float(row["std"]), v.std(ddof=1), rtol=0, atol=6e-5, msg=lab + " std")
    if T == 2 and all(len(v) for v in cells.values()):
        mon.close("summary", float(s.loc["DiD Estimate", "mean"]), cells[1, 1].mean() - cells[1, 0].mean() - cells[0, 1].mean() + cells[0, 0].mean(), rtol=1e-12, atol=1e-12, msg="DiD row")
    mon.check("summary", len(s) == 2 * T + (T == 2), f"{len(s)} rows")
    cov = pick(rng, None, ["x"], ["x", "y"])
    a = run(mon, df, lambda: prep.aggregate_to_cohorts(df, "u", "t", "d", "y", covariates=cov))
    mon.check("cohorts", len(a) == 2 * T and not a.duplicated(["d", "t"]).any(), f"{len(a)} cohort rows for {2*T}")
    for rec in a.to_dict("records"):
        m = (df.d == rec["d"]) & (df.t == rec["t"])
        mon.check("cohorts", rec["n_units"] == df.u[m].nunique(), "n_units")
        mon.close("cohorts", rec["mean_y"], df.y[m].mean(), rtol=1e-12, msg="mean outcome")
        if cov:
            mon.close("cohorts", rec["x"], df.x[m].mean(), rtol=1e-10, atol=1e-14, msg="mean covariate")
    mon.state("sum", T, kind, bool(df.y.isna().any()), str(cov))


def k_event(mon, rng, tier):
    n, T = int(rng.integers(1, 20)), int(rng.integers(1, 8))
    base = int(pick(rng, 0, 1, 2000))
    u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n) + base
    never = rng.random(n) < pick(rng, 0, 0.3, 1.0)
    g = rng.integers(0, T + 3, n) + base
    dt = pick(rng, "int", "float", "object", "Int64", "Float64", "uint16", "int16", "date", "period")
    mark = pick(rng, "nan", "inf", "both")
    m = {"nan": lambda: np.nan, "inf": lambda: np.inf, "both": lambda: pick(rng, np.nan, np.inf)}[mark]
    if dt in ("int", "uint16", "int16", "uint8"):
        never[:] = False
    if dt in ("Int64", "date", "period"):
        mark, m = "nan", (lambda: None)
    gv = [(m() if never[i] else (int(g[i]) if dt != "float" else float(g[i]))) for i in range(n)]
    df = pd.DataFrame({"t": t, "u": u, "y": rng.normal(size=len(t))})
    col = [gv[i] for i in u]
    if dt in ("date", "period"):
        org = pd.Timestamp("2001-01-01")
        day = lambda k: org + pd.Timedelta(days=int(k))
        df["t"] = [day(k) for k in t]
        df["g"] = pd.Series([pd.NaT if c is None else day(c) for c in col])
        if dt == "period":
            df["t"], df["g"] = df["t"].dt.to_period("D"), df["g"].dt.to_period("D")
    elif dt in ("Int64", "Float64"):
        df["g"] = pd.array([None if is_na(c) else c for c in col], dtype=dt)
    else:
        df["g"] = pd.Series(col, dtype={"int": "int64", "float": "float64", "object": object, "uint16": "uint16", "int16": "int16"}[dt])
        if dt in ("uint16", "int16"):
            df["t"] = df["t"].astype(dt)
    df = shuffle_index(rng, df)
    new = pick(rng, "event_time", "rel")
    r = run(mon, df, lambda: prep.create_event_time(df, "t", "g", new_column=new))
    rest_same(mon, "event-time", df, r, new)
    bad = []
    for k, (ui, tv, a) in enumerate(zip(df["u"], df["t"], r[new])):
        w = None if never[ui] else (None if is_na(df["g"].iloc[k]) else True)
        if w is None:
            if not is_na(a):
                bad.append((ui, tv, a, "NaN"))
        else:
            base_t = tv if dt not in ("date", "period") else ((tv.to_timestamp() if dt == "period" else tv) - pd.Timestamp("2001-01-01")).days
            diff = int(base_t) - int(g[ui])
            x = a.days if dt == "date" else (a.n if dt == "period" else float(a))
            if x != diff:
                bad.append((ui, tv, a, diff))
    mon.check("event-time", not bad, f"{dt} {mark}: {bad[:3]}")
    mon.state("evt", dt, mark, bool(never.any()), bool(never.all()))


def rank_case(rng):
    n, T = int(rng.integers(4, 22)), int(rng.integers(2, 9))
    lab = unit_labels(rng, n)
    nt = int(rng.integers(1, n - 1))
    who = np.zeros(n, int)
    who[rng.permutation(n)[:nt]] = 1
    u, t = np.repeat(np.arange(n), T), np.tile(np.arange(T), n)
    base = int(pick(rng, 0, 2000))
    df = pd.DataFrame({"unit": np.array(lab, dtype=object)[u], "t": t + base, "d": who[u]})
    scale, lev = float(pick(rng, 1, 100, 1e-3)), float(pick(rng, 0, 5, 1000))
    df["y"] = scale * (lev + rng.normal(size=n)[u] + 0.3 * rng.normal(size=n)[u] * t + 0.3 * rng.normal(size=len(u)))
    df["x1"] = rng.normal(size=n)[u] + 0.2 * rng.normal(size=len(u))
    df["x2"] = 100 * rng.normal(size=n)[u]
    df["x3"] = 1.0
    dit = maybe(rng, 0.3)
    if dit:
        df["d"] = df.d * (t >= T // 2)
    gap = maybe(rng, 0.4)
    if gap:
        df = df[rng.random(len(df)) > 0.15]
        if maybe(rng):
            df["y"] = df["y"].where(rng.random(len(df)) > 0.1)
        if maybe(rng, 0.3):
            df["x1"] = df["x1"].where(df.unit != lab[int(rng.integers(n))])
    return df.sort_values(["unit", "t"]).reset_index(drop=True), lab, [lab[i] for i in range(n) if who[i]], base, T, dit, gap


def k_rank(mon, rng, tier):
    df, lab, treated, base, T, dit, gap = rank_case(rng)
    pre = list(range(base, base + T))[: T // 2] if maybe(rng) else sorted(int(x) for x in rng.choice(np.arange(base, base + T), int(rng.integers(1, T + 1)), replace=False))
    allp = sorted(df.t.unique())
    default = maybe(rng, 0.4)
    if default:
        pre = allp[: len(allp) // 2]
    P = df[df.t.isin(pre)]
    Y = P.dropna(subset=["y"]).pivot(index="t", columns="unit", values="y")
    ever = df.groupby("unit").d.max()
    tr = [x for x in treated if x in ever.index and (not dit or ever[x] == 1)]
    explicit = maybe(rng, 0.4) and not dit
    if dit and maybe(rng, 0.3):
        explicit, tr = True, treated
    trp = [x for x in tr if x in Y.columns]
    controls = [x for x in lab if x in Y.columns and x not in tr]
    excl = [x for x in controls if maybe(rng, 0.2)] if maybe(rng, 0.3) else None
    if excl:
        controls = [x for x in controls if x not in excl]
    if not trp or not controls:
        return
    cov = pick(rng, None, None, ["x1"], ["x1", "x2"], ["x2", "x3"])
    wo, wc = pick(rng, (0.7, 0.3), (1.0, 0.0), (0.0, 1.0), (0.5, 0.5), (0.9, 0.2))
    lam = float(pick(rng, 0, 0, 1.0, 100.0))
    req = [controls[i] for i in rng.permutation(len(controls))[: int(rng.integers(1, 3))]] if maybe(rng, 0.3) else None
    ntop = int(rng.integers(0, len(controls) + 3)) if maybe(rng, 0.4) else None
    kw = dict(unit_column="unit", time_column="t", outcome_column="y", outcome_weight=wo, covariate_weight=wc, lambda_reg=lam)
    kw.update(dict(treated_units=list(tr)) if explicit else dict(treatment_column="d"))
    if not default:
        kw["pre_periods"] = pre
    for k, v in (("covariates", cov), ("exclude_units", excl), ("require_units", req), ("n_top", ntop)):
        if v is not None:
            kw[k] = v
    sh = shuffle_index(rng, df)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = run(mon, sh, lambda: prep.rank_control_units(sh, **kw))
    mon.state("rank", gap, dit, explicit, default, str(cov), (wo, wc), lam, req is None, ntop is None, excl is None)
    units = list(r["unit"])
    mon.check("ranking", len(set(units)) == len(units) and set(units) <= set(controls), f"units {units} controls {controls}")
    want_n = len(controls) if ntop is None else min(len(controls), max(ntop, len(set(req or []))))
    mon.check("ranking", len(units) == want_n and all(q in units for q in (req or [])), f"{len(units)} rows, want {want_n}; required {req}")
    q = r.quality_score.to_numpy(float)
    qq = q[~np.isnan(q)]
    mon.check("ranking", np.all(np.diff(qq) <= 1e-12) and not np.isnan(q[: len(qq)]).any(), f"not in score order {q}")
    mon.check("ranking", np.all((qq >= -1e-9) & (qq <= 1 + 1e-9)), f"score outside [0,1] {q}")
    mon.check("ranking", list(r.is_required) == [x in (req or []) for x in units], "is_required flag")
    # scores by hand
    Yc, yt = Y[controls], Y[trp].mean(axis=1)
    rm = np.sqrt(((Yc.sub(yt, axis=0)) ** 2).mean())
    if rm.isna().any():
        return
    mon.describe(n=len(lab), T=T, treated=len(trp), controls=len(controls), cov=cov, lam=lam, n_top=ntop, gap=gap, switching=dit)
    rng_ = rm.max() - rm.min()
    os_ = pd.Series(1.0, index=rm.index) if rng_ < 1e-10 else 1 - (rm - rm.min()) / rng_
    R = r.set_index("unit")
    mon.close("ranking", R.pre_trend_rmse.reindex(units), rm.reindex(units), rtol=1e-9, msg="RMSE")
    mon.close("ranking", R.outcome_trend_score.reindex(units), os_.reindex(units), rtol=1e-8, atol=1e-8, msg="outcome score")
    want = os_
    if cov:
        C = P[P.unit.isin(P.unit)].groupby("unit")[cov].mean()
        z = (C - C.mean()) / C.std().replace(0, 1)
        d = np.sqrt(((z.loc[controls] - ((C.loc[trp].mean() - C.mean()) / C.std().replace(0, 1))) ** 2).sum(axis=1, skipna=False))
        dr = d.max() - d.min()
        cs = pd.Series(1.0, index=d.index) if dr < 1e-10 else 1 - (d - d.min()) / dr
        if not d.isna().all() and not C.std().isna().any():
            mon.close("ranking", np.nan_to_num(R.covariate_score.reindex(units), nan=-9), np.nan_to_num(cs.where(d.notna()).reindex(units), nan=-9), rtol=1e-7, atol=1e-7, msg="covariate score")
            want = pd.Series(np.where(d.notna(), (wo * os_.loc[d.index] + wc * cs) / (wo + wc), os_.loc[d.index]), index=d.index)
    else:
        mon.check("ranking", r.covariate_score.isna().all(), "covariate score without covariates")
    mon.close("ranking", R.quality_score.reindex(units), want.reindex(units), rtol=1e-7, atol=1e-7, msg="quality score")
    if ntop is not None and len(units) < len(controls):
        lo = R.quality_score[[x for x in units if x not in (req or [])]]
        out = want[[x for x in controls if x not in units]]
        if len(lo):
            mon.check("ranking", lo.min() >= out.max() - 1e-7, f"a better control was left out: kept {lo.min()} left {out.max()}")
    # synthetic weights: simplex optimum of the stated objective
    if ntop is None:
        w = R.synthetic_weight.reindex(controls).to_numpy(float)
        ok = yt.notna()
        full = Yc[ok].notna().all()
        if full.any():
            A, b = Yc[ok].loc[:, full].to_numpy(), yt[ok].to_numpy()
            wf = w[full.to_numpy()]
            mon.check("ranking", abs(np.nansum(w) - 1) < 1e-8 and np.all(w >= 0), f"weights not on the simplex {w}")
            k = A.shape[1]
            obj = lambda v: ((b - A @ v) ** 2).sum() + lam * ((v - 1 / k) ** 2).sum()
            g = -2 * A.T @ (b - A @ wf) + 2 * lam * (wf - 1 / k)
            gap_ = float(wf @ g - g.min())                       # Frank-Wolfe duality gap bounds the suboptimality
            s0 = obj(np.ones(k) / k) + ((A - A.mean(axis=1, keepdims=True)) ** 2).sum() / k
            mon.check("ranking", gap_ <= 5e-2 * s0 + 1e-12, f"weights not optimal: gap {gap_:.3g} of {s0:.3g}")
    if maybe(rng, 0.3):
        bad = pick(rng, "none", "both", "weight", "reqtreated", "nopre", "reqexcl", "column", "ghost")
        k2 = dict(kw)
        k2.pop("require_units", None)
        if bad == "none":
            k2.pop("treatment_column", None), k2.pop("treated_units", None)
        elif bad == "both":
            k2.update(treatment_column="d", treated_units=list(tr))
        elif bad == "weight":
            k2["outcome_weight"] = pick(rng, -0.1, 1.5)
        elif bad == "reqtreated":
            k2["require_units"] = [tr[0]]
        elif bad == "ghost":
            k2["require_units"] = ["ghost"]
        elif bad == "nopre":
            k2["pre_periods"] = [base - 7]
        elif bad == "reqexcl":
            k2.update(require_units=[controls[0]], exclude_units=[controls[0]])
        else:
            k2["covariates"] = ["nope"]
        mon.raises("refuses", (ValueError,), lambda: prep.rank_control_units(sh, **k2), f"rank_control_units {bad}")


def k_candidates(mon, rng, tier):
    df, lab, treated, base, T, dit, gap = rank_case(rng)
    allp = sorted(df.t.unique())
    default = maybe(rng, 0.5)
    pre = allp[: len(allp) // 2] if default else allp[: int(rng.integers(1, len(allp) + 1))]
    if not pre:
        return
    k = int(rng.integers(1, len(lab) + 3))
    sh = shuffle_index(rng, df)
    kw = {} if default else dict(pre_periods=[pre[i] for i in rng.permutation(len(pre))])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = run(mon, sh, lambda: prep.rank_control_units(sh, "unit", "t", "y", suggest_treatment_candidates=True, n_treatment_candidates=k, **kw))
    P = df[df.t.isin(pre)]
    if not len(P):
        return
    means = P.groupby("unit").y.mean()
    us = list(r["unit"])
    mon.check("candidates", len(us) == len(set(us)) and set(us) <= set(means.index) and len(us) <= k, f"units {us}")
    sc = r.treatment_candidate_score.to_numpy(float)
    mon.check("candidates", np.all(np.diff(sc[~np.isnan(sc)]) <= 1e-12), "not in score order")
    mon.close("candidates", r.avg_outcome_level, means.reindex(us), rtol=1e-10, msg="average level")
    if means.isna().any():
        return
    mon.check("candidates", len(us) == min(k, len(means)), f"{len(us)} candidates of {len(means)}, asked {k}")
    slopes, near = {}, {}
    for a in means.index:
        g = P[(P.unit == a)].dropna(subset=["y"]).sort_values("t")
        pos = np.array([pre.index(x) for x in g.t], float)
        slopes[a] = np.polyfit(pos, g.y, 1)[0] if len(pos) > 1 else 0.0
        o = means.drop(a)
        s = o.std()
        near[a] = int((abs(o - means[a]) < 0.5 * s).sum()) if s > 0 else len(o)
    sc_ = means.abs().max() + 1e-300
    mon.close("candidates", r.outcome_trend, [slopes[a] for a in us], rtol=1e-6, atol=1e-8 * sc_, msg="trend slope")
    mon.close("candidates", r.n_similar_controls, [near[a] for a in us], rtol=0, atol=0, msg="similar controls")
    nn = pd.Series(near)
    sim = nn / nn.max() if nn.max() > 0 else nn * 0.0
    z = ((means - means.mean()) / means.std()).abs() if means.std() > 0 else means * 0.0
    want = (sim - 0.3 * z).clip(0, 1)
    mon.close("candidates", sc, want.reindex(us), rtol=1e-8, atol=1e-9, msg="score")
    rest = want.drop(us)
    if len(rest) and len(us):
        mon.check("candidates", want.reindex(us).min() >= rest.max() - 1e-9, "a better candidate was left out")
    mon.state("cand", gap, default, T, k >= len(lab))


KINDS = {"indicator": (k_indicator, 200, 3000), "post": (k_post, 200, 3000), "long": (k_long, 120, 2000), "balance": (k_balance, 160, 2500), "validate": (k_validate, 160, 2500),
         "summary": (k_summary, 60, 1000), "event": (k_event, 160, 2500), "rank": (k_rank, 200, 3000), "candidates": (k_candidates, 80, 1200)}
