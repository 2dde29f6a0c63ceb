"""Workload generators (independent of diff_diff.prep_dgp)."""
import numpy as np
import pandas as pd


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


def maybe(rng, p=0.5):
    return bool(rng.random() < p)


def alpha_of(rng):
    return float(pick(rng, 0.05, 0.05, 0.1, 0.01, round(float(rng.uniform(0.002, 0.5)), 4)))


def unit_labels(rng, n, style=None):
    style = style or pick(rng, "int", "int_gap", "str", "neg")
    if style == "int":
        return list(range(n))
    if style == "int_gap":
        return [int(x) for x in rng.choice(np.arange(5, 50 * n + 50), n, replace=False)]
    if style == "neg":
        return [int(x) for x in (np.arange(n) - n // 2)]
    return [f"u{int(x):04d}" for x in rng.choice(9000, n, replace=False)]


def cross_section(rng, n=None, lo=24, hi=160, balanced=False, covs=2, level=10.0, noise=1.0,
                  n_clusters=None, n_fe=0):
    """2x2 data with arbitrary cell sizes (each cell >= 3)."""
    n = n or int(rng.integers(lo, hi))
    if balanced:
        tr = np.tile([0, 0, 1, 1], n // 4 + 1)[:n]
        po = np.tile([0, 1, 0, 1], n // 4 + 1)[:n]
    else:
        p = rng.dirichlet(np.ones(4) * 2)
        cell = rng.choice(4, n, p=p)
        cell[:12] = np.repeat(np.arange(4), 3)
        tr, po = cell // 2, cell % 2
    df = pd.DataFrame({"treated": tr.astype(int), "post": po.astype(int)})
    y = level + rng.normal(0, 1) * tr + rng.normal(0, 1) * po + rng.normal(0, 2) * tr * po
    for k in range(covs):
        x = rng.normal(rng.normal(0, 2), rng.uniform(0.3, 3), n) + 0.5 * tr
        df[f"x{k+1}"] = x
        y = y + rng.normal() * x
    G = n_clusters or int(rng.integers(6, max(7, n // 4)))
    cl = rng.integers(0, G, n)
    df["cl"] = cl
    y = y + rng.normal(0, 0.5, G)[cl]
    for k in range(n_fe):
        m = int(rng.integers(2, 6)) if n < 64 or not maybe(rng, 0.12) else int(rng.integers(12, min(46, n // 3)))
        f = rng.integers(0, m, n)
        f[:m] = np.arange(m)
        df[f"f{k+1}"] = f
        y = y + rng.normal(0, 1, m)[f]
    df["y"] = y + rng.normal(0, noise, n) * np.exp(0.3 * rng.normal() * tr)
    return df.iloc[rng.permutation(n)].reset_index(drop=True)


def panel(rng, n_units=None, n_periods=None, cohorts=None, never=True, min_pre=1, noise=1.0,
          effect=None, level=10.0, covs=0, tv_covs=0, drop=0.0, time0=None, step=1, never_code=0,
          min_size=2, labels=None, trend_cov=0.0, n_clusters=None, unit_sd=1.0, irregular=False,
          ar=0.0, sizes=None):
    """Staggered panel.  cohorts: list of first-treated period *indices* (None -> random)."""
    T = n_periods or int(rng.integers(4, 9))
    if cohorts is None:
        k = int(rng.integers(1, min(4, T - min_pre) + 1))
        cohorts = sorted(int(c) for c in rng.choice(np.arange(min_pre, T), k, replace=False))
    groups = list(cohorts) + ([None] if never else [])
    n = n_units or int(rng.integers(max(20, 6 * len(groups)), 80))
    if sizes is None:
        extra = n - min_size * len(groups)
        p = rng.dirichlet(np.ones(len(groups)) * 2)
        sizes = np.full(len(groups), min_size) + rng.multinomial(max(extra, 0), p)
    n = int(np.sum(sizes))
    time0 = int(pick(rng, 0, 1, 1, 3, 1990)) if time0 is None else time0
    if time0 == 0 and cohorts and min(cohorts) == 0:
        time0 = 1
    if irregular:
        gaps = rng.integers(1, 4, T - 1)
        times = time0 + np.concatenate([[0], np.cumsum(gaps)])
    else:
        times = time0 + step * np.arange(T)
    times = [int(t) for t in times]
    gi = np.repeat(np.arange(len(groups)), sizes)
    gi = gi[rng.permutation(n)]
    lab = unit_labels(rng, n, labels)
    a = rng.normal(0, unit_sd, n)
    tau_t = np.cumsum(rng.normal(0.2, 0.5, T))
    X = {f"x{k+1}": rng.normal(0, 1, n) + 0.3 * (gi < len(cohorts)) for k in range(covs)}
    G = n_clusters or max(min(6, n), n // 4)
    cl = rng.integers(0, G, n)
    cl[:G] = np.arange(G)
    rows = []
    for i in range(n):
        g = groups[gi[i]]
        e = rng.normal(0, noise, T) if noise else np.zeros(T)
        for s in range(1, T):
            e[s] += ar * e[s - 1]
        for s in range(T):
            d = int(g is not None and s >= g)
            if effect is None:
                eff = d * (1.0 + 0.3 * (s - g) + 0.5 * gi[i]) if d else 0.0
            elif callable(effect):
                eff = effect(gi[i], g, s, i) if d else 0.0
            else:
                eff = d * float(effect)
            y = level + a[i] + tau_t[s] + eff + e[s]
            row = {"unit": lab[i], "time": times[s],
                   "first_treat": times[g] if g is not None else never_code,
                   "ever": int(g is not None), "D": d, "cl": int(cl[i]), "eff": eff}
            for kx, v in X.items():
                row[kx] = v[i]
                y = y + (0.3 + trend_cov * s) * v[i]
            for k in range(tv_covs):
                z = rng.normal() + 0.2 * s
                row[f"z{k+1}"] = z
                y = y + 0.7 * z
            row["y"] = y
            rows.append(row)
    df = pd.DataFrame(rows)
    if len(cohorts) == 1:
        df["post"] = (df["time"] >= times[cohorts[0]]).astype(int)
    if drop > 0:
        keep = rng.random(len(df)) >= drop
        df = df[keep].reset_index(drop=True)
    df = df.iloc[rng.permutation(len(df))].reset_index(drop=True) if maybe(rng) else df
    df.attrs.clear()
    meta = {"times": times, "cohorts": [times[c] for c in cohorts], "n": n, "T": T,
            "sizes": [int(s) for s in sizes], "never": never}
    return df, meta


def block_panel(rng, n_units=None, n_periods=None, n_treated=None, start=None, min_pre=2, **kw):
    """Panel with a single adoption date and never-treated controls."""
    T = n_periods or int(rng.integers(max(4, min_pre + 1), 10))
    s = start if start is not None else int(rng.integers(min_pre, T))
    n = n_units or int(rng.integers(10, 45))
    k = n_treated or int(rng.integers(2, max(3, n // 2)))
    return panel(rng, n_periods=T, cohorts=[s], never=True, sizes=[k, n - k], **kw)


def ddd(rng, equal=False, covs=0, n=None, level=10.0, noise=1.0, effect=None, min_cell=4, hetero=True):
    """8-cell triple-difference data with arbitrary cell sizes."""
    if equal:
        counts = np.full(8, int(rng.integers(min_cell, 30)))
    else:
        counts = rng.integers(min_cell, 30, 8)
    cells = np.repeat(np.arange(8), counts)
    G, Pp, T = (cells >> 2) & 1, (cells >> 1) & 1, cells & 1
    m = rng.normal(0, 2, 8)
    y = level + m[cells]
    if effect is not None:
        base = level + 1.0 * G + 0.7 * Pp + 0.4 * T + 0.9 * G * Pp + 0.3 * G * T - 0.6 * Pp * T
        y = base + effect * G * Pp * T
    df = pd.DataFrame({"g": G, "p": Pp, "t": T})
    for k in range(covs):
        x = rng.normal(0, 1, len(cells)) + 0.4 * G - 0.3 * Pp + 0.2 * G * Pp
        df[f"x{k+1}"] = x
        y = y + (0.5 + 0.5 * k) * x
    df["y"] = y + rng.normal(0, noise, len(cells)) if noise else y
    df["cl"] = rng.integers(0, 12, len(cells))
    return df.iloc[rng.permutation(len(cells))].reset_index(drop=True)
