"""Child process of C29: runs a list of analyses with a stand-in for the compiled accelerator module.

The stand-in implements the ten functions of diff_diff._rust_backend in NumPy from their documented signatures
(/repo/rust/src): it enforces the argument types the compiled binding enforces, records every call, and can be told to
fail the way the compiled code is documented to fail.

argv[1]: {"mode": plain|on|unstable|nanvcov, "todo": [[kind, seed], ...]}; prints one JSON object.
"""
import json
import os
import sys
import types
import warnings
import numpy as np

SPEC = json.loads(sys.argv[1])
MODE = SPEC["mode"]
CALLS, BROKEN, TAKEN = {}, [], {}


def need(cond, msg):
    if not cond:
        BROKEN.append(msg)
        raise TypeError(msg)


def array(name, a, nd, dtype, opt=False):
    if a is None and opt:
        return
    need(isinstance(a, np.ndarray) and a.ndim == nd and a.dtype == np.dtype(dtype),
         f"{name} must be a {nd}-d {dtype} array, got {type(a).__name__} {getattr(a, 'dtype', '')} {getattr(a, 'shape', '')}")


def count(name, v):
    need(isinstance(v, (int, np.integer)) and not isinstance(v, bool) and 0 <= v < 2 ** 64, f"{name} must be a non-negative integer, got {v!r}")


def number(name, v):
    need(isinstance(v, (float, int, np.floating, np.integer)), f"{name} must be a number, got {v!r}")


def hit(name):
    CALLS[name] = CALLS.get(name, 0) + 1


def sandwich(x, u, g):
    n, k = x.shape
    s = np.sqrt((x * x).sum(0))
    s[s == 0] = 1
    z = x / s
    bread = np.linalg.inv(z.T @ z)
    if g is None:
        meat = (z * (u ** 2)[:, None]).T @ z * n / (n - k)
    else:
        codes = np.unique(g, return_inverse=True)[1]
        m = codes.max() + 1
        if m < 2:
            raise ValueError(f"Need at least 2 clusters for cluster-robust SEs, got {m}")
        sc = np.zeros((m, k))
        np.add.at(sc, codes, z * u[:, None])
        meat = sc.T @ sc * (m / (m - 1)) * ((n - 1) / (n - k))
    return bread @ meat @ bread / np.outer(s, s)


def solve_ols(x, y, cluster_ids=None, return_vcov=True):
    hit("solve_ols")
    array("x", x, 2, "float64"), array("y", y, 1, "float64"), array("cluster_ids", cluster_ids, 1, "int64", True)
    need(isinstance(return_vcov, bool), "return_vcov must be a bool")
    if MODE == "unstable":
        raise ValueError("Least squares solve is numerically unstable: residual check failed")
    s = np.sqrt((x * x).sum(0))
    s[s == 0] = 1
    q, r = np.linalg.qr(x / s)
    b = np.linalg.solve(r, q.T @ y) / s
    u = y - x @ b
    v = None
    if return_vcov:
        v = sandwich(x, u, cluster_ids) if MODE != "nanvcov" or len(y) % 3 else np.full((x.shape[1],) * 2, np.nan)
        if MODE == "nanvcov":        # an undetermined column makes its row and column NaN
            v[-1], v[:, -1] = np.nan, np.nan
    return b, u, v


def compute_robust_vcov(x, residuals, cluster_ids=None):
    hit("compute_robust_vcov")
    array("x", x, 2, "float64"), array("residuals", residuals, 1, "float64"), array("cluster_ids", cluster_ids, 1, "int64", True)
    if MODE == "unstable":
        raise ValueError("Matrix inversion numerically unstable (LU residual too large)")
    return sandwich(x, residuals, cluster_ids)


def generate_bootstrap_weights_batch(n_bootstrap, n_units, weight_type, seed):
    hit("generate_bootstrap_weights_batch")
    count("n_bootstrap", n_bootstrap), count("n_units", n_units), count("seed", seed)
    need(type(weight_type) is str, "weight_type must be a str")
    TAKEN["weights"] = [int(n_bootstrap), int(n_units), weight_type, str(int(seed))]
    r = np.random.default_rng(int(seed))
    if weight_type == "mammen":
        q5 = np.sqrt(5)
        return np.where(r.random((n_bootstrap, n_units)) < (q5 + 1) / (2 * q5), -(q5 - 1) / 2, (q5 + 1) / 2)
    vals = {"rademacher": [-1, 1], "webb": [-np.sqrt(1.5), -1, -np.sqrt(.5), np.sqrt(.5), 1, np.sqrt(1.5)]}
    if weight_type not in vals:
        raise ValueError(f"Unknown weight_type: {weight_type}")
    return r.choice(np.array(vals[weight_type], float), (n_bootstrap, n_units))


def compute_synthetic_weights(y_control, y_treated, lambda_reg=0.0, max_iter=None, tol=None):
    hit("compute_synthetic_weights")
    array("y_control", y_control, 2, "float64"), array("y_treated", y_treated, 1, "float64"), number("lambda_reg", lambda_reg)
    need(y_control.shape[0] == len(y_treated), "shapes of y_control and y_treated differ")
    import diff_diff.utils as u
    if hasattr(u, "_compute_synthetic_weights_numpy"):
        return np.array(u._compute_synthetic_weights_numpy(y_control, y_treated, lambda_reg))
    from mon import refs
    return refs.simplex_qp(y_control, y_treated, lambda_reg)


def project_simplex(v):
    hit("project_simplex")
    array("v", v, 1, "float64")
    from mon import refs
    return refs.proj_simplex(v)


def compute_unit_distance_matrix(y, d):
    hit("compute_unit_distance_matrix")
    array("y", y, 2, "float64"), array("d", d, 2, "float64")
    z = np.where((d == 0) & np.isfinite(y), y, np.nan)
    n = z.shape[1]
    out = np.full((n, n), np.inf)
    for i in range(n):
        for j in range(n):
            e = (z[:, i] - z[:, j]) ** 2
            if i == j:
                out[i, j] = 0.0
            elif np.isfinite(e).any():
                out[i, j] = np.sqrt(np.nanmean(e))
    return out


def grids(y, d, mask, lt, lu, ln, max_samples, max_iter, tol, seed):
    array("y", y, 2, "float64"), array("d", d, 2, "float64"), array("control_mask", mask, 2, "uint8")
    for nm, g in (("lambda_time_grid", lt), ("lambda_unit_grid", lu), ("lambda_nn_grid", ln)):
        array(nm, g, 1, "float64")
    count("max_loocv_samples", max_samples), count("max_iter", max_iter), number("tol", tol), count("seed", seed)
    need(y.shape == d.shape == mask.shape, "shapes differ")
    need(np.array_equal(mask == 1, d == 0), "control_mask does not mark the untreated observations")
    if MODE == "unstable" and len(lt) % 2:
        raise RuntimeError("grid search failed")
    if MODE == "unstable":
        return float(lt[-1]), float(lu[-1]), float(ln[-1]), np.inf, 0, 7, (1, 0)      # no fit succeeded
    TAKEN["grid"] = [float(lt[-1]), float(lu[-1]), float(ln[-1])]
    return (*TAKEN["grid"], 1.0, 5, 5, None)


def loocv_grid_search(y, d, control_mask, time_dist_matrix, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed):
    hit("loocv_grid_search")
    array("time_dist_matrix", time_dist_matrix, 2, "int64")
    T = y.shape[0]
    need(np.array_equal(time_dist_matrix, abs(np.arange(T)[:, None] - np.arange(T))), "time distances")
    return grids(y, d, control_mask, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed)


def loocv_grid_search_joint(y, d, control_mask, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed):
    hit("loocv_grid_search_joint")
    return grids(y, d, control_mask, lambda_time_grid, lambda_unit_grid, lambda_nn_grid, max_loocv_samples, max_iter, tol, seed)


def draws(y, d, lt, lu, ln, n_bootstrap, max_iter, tol, seed):
    array("y", y, 2, "float64"), array("d", d, 2, "float64")
    for nm, v in (("lambda_time", lt), ("lambda_unit", lu), ("lambda_nn", ln), ("tol", tol)):
        number(nm, v)
    count("n_bootstrap", n_bootstrap), count("max_iter", max_iter), count("seed", seed)
    if MODE == "unstable":
        raise RuntimeError("bootstrap failed")
    v = np.random.default_rng(int(seed)).normal(1.0, 2.0, int(n_bootstrap))
    TAKEN["draws"] = [float(v.std(ddof=1)) if len(v) > 1 else 0.0, len(v), int(n_bootstrap), [float(lt), float(lu), float(ln)]]
    return v, TAKEN["draws"][0]


def bootstrap_trop_variance(y, d, control_mask, time_dist_matrix, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed):
    hit("bootstrap_trop_variance")
    array("control_mask", control_mask, 2, "uint8"), array("time_dist_matrix", time_dist_matrix, 2, "int64")
    need(np.array_equal(control_mask == 1, d == 0), "control_mask does not mark the untreated observations")
    return draws(y, d, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed)


def bootstrap_trop_variance_joint(y, d, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed):
    hit("bootstrap_trop_variance_joint")
    return draws(y, d, lambda_time, lambda_unit, lambda_nn, n_bootstrap, max_iter, tol, seed)


if SPEC["stub"]:
    m = types.ModuleType("diff_diff._rust_backend")
    for f in (solve_ols, compute_robust_vcov, generate_bootstrap_weights_batch, compute_synthetic_weights, project_simplex, compute_unit_distance_matrix,
              loocv_grid_search, loocv_grid_search_joint, bootstrap_trop_variance, bootstrap_trop_variance_joint):
        setattr(m, f.__name__, f)
    sys.modules["diff_diff._rust_backend"] = m

out = {"mode": MODE, "res": []}
try:
    import diff_diff
except ImportError as e:
    out["import_error"] = str(e)
    print(json.dumps(out))
    sys.exit(0)
out["flag"] = bool(diff_diff.HAS_RUST_BACKEND)

from mon.zoo import ZOO, flat  # noqa: E402


def core(seed):
    """The public building blocks called directly, the way user code may."""
    from diff_diff import linalg, utils
    r = np.random.default_rng(seed)
    n, k, G = int(r.integers(12, 80)), int(r.integers(1, 6)), int(r.integers(3, 9))
    X = np.column_stack([np.ones(n), r.normal(size=(n, k)) * 10.0 ** r.integers(-3, 4, k)])
    if r.random() < 0.25:
        X = np.column_stack([X, X[:, 1] * 2])
    y = X @ r.normal(size=X.shape[1]) + r.normal(size=n)
    g = r.integers(0, G, n)
    g[:G] = np.arange(G)
    cl = {0: None, 1: g, 2: np.array([f"c{v}" for v in g]), 3: g.astype(float) / 2, 4: g - 5, 5: np.array([f"c{v}" for v in g], dtype=object), 6: g.astype(np.int32)}[int(r.integers(7))]
    if r.random() < 0.3:
        X = np.asfortranarray(X)
    if r.random() < 0.15:
        y = y.round().astype(int)
    out = {}
    full = np.linalg.matrix_rank(X / np.abs(X).max(0)) == X.shape[1]
    kw = {"cluster_ids": cl, "return_fitted": bool(r.random() < 0.5), "return_vcov": bool(r.random() < 0.8), "skip_rank_check": bool(full and r.random() < 0.4 and MODE != "nanvcov")}
    res = linalg.solve_ols(X, y, **kw)
    for i, a in enumerate(res):
        if a is not None:
            out.update({f"ols{i}[{j}]": float(v) for j, v in enumerate(np.asarray(a).ravel()[:60])})
    if full:
        e = y - X @ res[0]
        out.update({f"hc[{j}]": float(v) for j, v in enumerate(np.asarray(linalg.compute_robust_vcov(X, e, cl)).ravel())})
    for j, one in enumerate([np.zeros(n, int), cl]):
        if one is None:
            continue
        try:
            m = linalg.LinearRegression(include_intercept=False, cluster_ids=one, rank_deficient_action="silent").fit(X, y)
            out.update({f"lr{j}[{i}]": float(v) for i, v in enumerate(np.concatenate([m.coefficients_, np.asarray(m.vcov_).ravel()]))})
        except ValueError:
            out[f"lr{j}"] = -1.0
    T, m = int(r.integers(2, 8)), int(r.integers(0, 7))
    Z = r.normal(size=(T, m)) * 3
    tr = r.normal(size=T)
    if r.random() < 0.4:
        Z, tr = Z.round().astype(int), tr.round().astype(int)
    w = utils.compute_synthetic_weights(Z, tr, lambda_reg=float(r.choice([0.0, 0.1, 2.0])), min_weight=float(r.choice([1e-6, 0.1])))
    out.update({f"w[{j}]": float(v) for j, v in enumerate(w)})
    return out, max(1.0, float(np.abs(y).max()))

for kind, seed in SPEC["todo"]:
    rng = np.random.default_rng(seed)
    if kind == "core":
        CALLS.clear(), BROKEN.clear(), TAKEN.clear()
        rec = {"kind": kind, "seed": seed, "params": {}, "scale": 1.0}
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                rec["res"], rec["scale"] = core(seed)
            rec["warn"] = sum("backend" in str(x.message).lower() for x in w)
        except Exception as e:
            rec["err"] = f"{type(e).__name__}: {e}"[:300]
        rec["calls"], rec["broken"], rec["taken"] = dict(CALLS), list(BROKEN), {}
        out["res"].append(rec)
        continue
    case = ZOO[kind](rng)
    if kind == "trop":
        case.params["n_bootstrap"] = 12
    CALLS.clear(), BROKEN.clear(), TAKEN.clear()
    rec = {"kind": kind, "seed": seed, "params": {k: str(v) for k, v in case.params.items()}, "scale": float(np.nanmax(np.abs(case.df[case.cols["outcome"]].to_numpy(float))))}
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if case.func is not None:
                r = case.func(case.df, **case.kwargs())
            else:
                r = case.estimator().fit(case.df, **case.kwargs())
                r = case.chain(r) if case.chain else r
        rec["warn"] = sum("backend" in str(x.message).lower() for x in w)
        rec["res"] = {k: float(v) for k, v in flat(r, floats_only=True).items() if isinstance(v, (int, float))}
    except Exception as e:
        rec["err"] = f"{type(e).__name__}: {e}"[:300]
    rec["calls"], rec["broken"], rec["taken"] = dict(CALLS), list(BROKEN), dict(TAKEN)
    out["res"].append(rec)
print(json.dumps(out))
