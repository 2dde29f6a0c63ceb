"""C29: the optional compiled accelerator is a drop-in replacement."""
import json
import os
import re
import subprocess
import sys
import numpy as np

from mon.gen import pick, maybe

RULE = ("every estimator and diagnostic of the zoo fitted in child processes with and without an instrumented accelerator module, under every backend setting and with the accelerator "
        "failing in its documented ways; non-trivial = distinct (analysis, mode, accelerator functions called) state")
NOTE = ("The stand-in implements the ten accelerator functions from their documented signatures, enforces the argument types the compiled binding enforces, records each call, and can "
        "report numerical failure, NaN covariances or outright errors. Same data and seeds are fitted without it; the two sets of results are compared number by number.")
ASSUMPTIONS = ("The compiled Rust code itself cannot be built offline (its crates are not in the cache): what is monitored is the Python side of the boundary. Results are compared to a "
               "relative 1e-6, bootstrap spreads only for being of the same size and reproducible.")
TECHNIQUE = "differential run-time monitoring across the accelerator boundary with an instrumented, fault-injecting stand-in"
REQUIRED = {"same": 60, "contract": 60, "fallback": 30, "off": 10, "select": 10, "chosen": 4, "used": 40}
LEVEL = "exploration"
KIND_NAMES = ["did", "did", "twfe", "mp", "cs", "cs", "sa", "bacon", "ddd", "trop", "trop", "sdid", "diag", "honest", "pretrends", "ptrend"]


def child(mon, mode, todo, stub, env):
    e = {**os.environ}
    e.pop("DIFF_DIFF_BACKEND", None)
    if env is not None:
        e["DIFF_DIFF_BACKEND"] = env
    p = subprocess.run([sys.executable, "-m", "mon.accel", json.dumps({"mode": mode, "todo": todo, "stub": stub})], capture_output=True, text=True, env=e, timeout=200)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except (IndexError, ValueError):
        mon.violate("same", f"mode {mode}, DIFF_DIFF_BACKEND={env}: the process ended with {p.returncode}: {p.stderr.strip()[-300:]}")
        return None


def todo_of(rng, n=5):
    return [[pick(rng, *KIND_NAMES), int(rng.integers(1, 10 ** 9))] for _ in range(n)] + [["core", int(rng.integers(1, 10 ** 9))] for _ in range(4)]


SPREAD = re.compile(r"se\b|_se|p_value|ci\b|conf_int|boot|t_stat|std|_ses|_cis|vcov|signif", re.I)


def compare(mon, name, a, b, what, skip=None):
    if "err" in a or "err" in b:
        mon.check(name, a.get("err", "").split(":")[0] == b.get("err", "").split(":")[0], f"{what}: {b.get('err', 'a result')} with the accelerator, {a.get('err', 'a result')} without")
        return
    x, y = a["res"], b["res"]
    keys = [k for k in x if not (skip and skip.search(k))]
    mon.check(name, set(keys) == {k for k in y if not (skip and skip.search(k))}, f"{what}: different result fields {sorted(set(x) ^ set(y))[:4]}")
    sc = a["scale"]
    ses = [abs(v) for k, v in x.items() if re.search(r"\.se$|_se$", k) and np.isfinite(v)]
    if ses and min(ses) < 1e-7 * sc:
        keys = [k for k in keys if not SPREAD.search(k)]       # exact fits: spreads are rounding error
    bad = [(k, y[k], x[k]) for k in keys if k in y and not (x[k] == y[k] or (np.isnan(x[k]) and np.isnan(y[k]))
                                                            or abs(x[k] - y[k]) <= 1e-6 * (abs(x[k]) + abs(y[k])) + 1e-8 * max(sc, 1))]
    mon.check(name, not bad, f"{what}: {bad[:3]} (accelerated, plain)")
    mon.saw(name, len(keys))


def label(r):
    return f"{r['kind']} seed {r['seed']} {r['params']}"[:260]


def contract(mon, r):
    mon.check("contract", not r["broken"], f"{label(r)}: the accelerator was called with unsupported arguments: {r['broken'][:2]}")


def k_same(mon, rng, tier):
    todo = todo_of(rng)
    env = pick(rng, "auto", "rust", None, "RUST", "Auto")
    a, b = child(mon, "plain", todo, False, "python"), child(mon, "on", todo, True, env)
    if not a or not b:
        return
    mon.check("select", b.get("flag") is True and a["flag"] is False, f"DIFF_DIFF_BACKEND={env}: HAS_RUST_BACKEND is {b.get('flag')} with an accelerator installed")
    used = set()
    again = child(mon, "on", todo, True, env)
    for x, y, z in zip(a["res"], b["res"], again["res"]):
        contract(mon, y)
        used |= set(y["calls"])
        mon.state(x["kind"], "on", tuple(sorted(y["calls"])))
        what, boot = label(x), int(x["params"].get("n_bootstrap", "0") or 0)
        skip = None
        if "weights" in y["taken"]:
            skip = SPREAD
            mon.check("used", y["taken"]["weights"][0] == boot and y["taken"]["weights"][2] == x["params"].get("bootstrap_weights", "rademacher"),
                      f"{what}: asked the accelerator for weights {y['taken']['weights']}")
            mon.stream("seeds", [x["params"].get("seed"), y["taken"]["weights"][3]])
            k = ".overall_se"
            if k in x["res"] and k in y["res"] and boot >= 20 and x["res"][k] > 1e-7 * x["scale"]:
                q = y["res"][k] / x["res"][k]
                mon.check("same", 0.25 < q < 4, f"{what}: bootstrap SE {q:.2f} times the one without accelerator ({boot} draws)")
        if x["kind"] == "trop" and "res" in y:
            g = y["taken"].get("grid")
            if g:
                fin = [(u, y["res"].get(f".lambda_{n}")) for u, n in zip(g, ("time", "unit", "nn"))]
                mon.check("chosen", all(v is not None and (u == v or (np.isinf(u) and not np.isfinite(v))) for u, v in fin), f"{what}: the search chose {g}, the fit reports {fin}")
            d = y["taken"].get("draws")
            skip = re.compile(SPREAD.pattern + "|loocv", re.I)
            if d:
                mon.close("chosen", y["res"][".se"], d[0], rtol=1e-9, msg=f"{what}: SE of the accelerated bootstrap")
                mon.check("chosen", d[2] == boot and (not g or d[3] == g or np.isinf(g).any()), f"{what}: bootstrap asked for {d[2]} draws at {d[3]}; chosen {g}")
            if x["params"]["lambda_unit_grid"].count(",") or not g:
                skip = re.compile(".")
        compare(mon, "same", x, y, what, skip)
        if "res" in y:
            dif = [k for k in y["res"] if not (y["res"][k] == z.get("res", {}).get(k) or y["res"][k] != y["res"][k])]
            mon.check("same", not dif, f"{what}: two accelerated runs with one seed differ in {dif[:3]}")
        if x["kind"] in ("did", "twfe", "mp", "sa", "diag") and "res" in y and "fixed_effects" not in str(x):
            mon.check("used", bool(y["calls"]), f"{what}: an installed accelerator was not used")
    mon.describe(todo=todo, env=env)


def k_fault(mon, rng, tier):
    todo = todo_of(rng)
    mode = pick(rng, "unstable", "unstable", "nanvcov")
    a, b = child(mon, "plain", todo, False, "python"), child(mon, mode, todo, True, pick(rng, "auto", "rust"))
    if not a or not b:
        return
    for x, y in zip(a["res"], b["res"]):
        contract(mon, y)
        mon.state(x["kind"], mode, tuple(sorted(y["calls"])))
        skip = SPREAD if "weights" in y["taken"] else None
        if mode == "nanvcov" and x["kind"] == "trop":
            continue
        compare(mon, "fallback", x, y, f"accelerator {mode}: {label(x)}", skip)
        if mode == "unstable" and "res" in y and y["calls"].get("solve_ols"):
            mon.check("fallback", y["warn"] > 0, f"{label(x)}: fell back from the accelerator without a warning")


def k_off(mon, rng, tier):
    todo = todo_of(rng, 3)
    a, b = child(mon, "plain", todo, False, pick(rng, "python", None, "auto")), child(mon, "on", todo, True, pick(rng, "python", "PYTHON"))
    if not a or not b:
        return
    mon.check("off", b["flag"] is False and not any(r["calls"] for r in b["res"]), "DIFF_DIFF_BACKEND=python still uses the accelerator")
    for x, y in zip(a["res"], b["res"]):
        dif = [k for k in x.get("res", {}) if not (x["res"][k] == y.get("res", {}).get(k) or x["res"][k] != x["res"][k])]
        mon.check("off", not dif and x.get("err") == y.get("err"), f"{label(x)}: the switched-off accelerator changes {dif[:3]}")
        mon.state(x["kind"], "off")


def k_select(mon, rng, tier):
    env = pick(rng, "rust", "Rust", "RUST")
    a = child(mon, "plain", [], False, env)
    if a:
        mon.check("select", "import_error" in a, f"DIFF_DIFF_BACKEND={env} without the accelerator imports silently")
        mon.check("select", "rust" in a.get("import_error", "").lower(), f"unhelpful error {a.get('import_error')}")
    for env in ("auto", None, "python"):
        a = child(mon, "plain", [], False, env)
        if a:
            mon.check("select", a.get("flag") is False, f"DIFF_DIFF_BACKEND={env} without accelerator: {a}")
    mon.state("select", env)


def FINAL(mon, streams, tier):
    pairs = {tuple(p) for p in streams.get("seeds", [])}
    asked, given = {p[0] for p in pairs}, {p[1] for p in pairs}
    mon.check("used", len(asked) < 3 or len(given) > len(asked) // 2, f"{len(asked)} different seeds reached the accelerator's bootstrap as {len(given)}")


KINDS = {"same": (k_same, 24, 260), "fault": (k_fault, 18, 200), "off": (k_off, 6, 50), "select": (k_select, 2, 6)}
