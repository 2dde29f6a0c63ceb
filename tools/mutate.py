#!/usr/bin/env python3
"""Development tool: small source mutations of the library, judged by the checks (each worker uses its own scratch copy).

usage: mutate.py MODULE N [seed] [--lines a-b]   -> prints survivors; log in /tmp/mut/MODULE.log
"""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue, threading

MAP = {
 "linalg": "C01 C04 C13 C05 C06 C08 C22 C25 C10 C07",
 "utils": "C02 C18 C19 C07 C12 C15 C25 C24 C04 C28 C21 C14",
 "estimators": "C04 C05 C02 C12 C24 C25 C22 C21 C07 C03",
 "twfe": "C06 C02 C11 C25 C07 C21 C24 C22",
 "staggered": "C08 C09 C02 C25 C24 C26 C21 C23 C22",
 "staggered_aggregation": "C09 C08 C02 C26 C15 C16 C21 C22",
 "staggered_bootstrap": "C09 C02 C23 C15 C24 C16",
 "staggered_results": "C03 C02 C24 C09",
 "sun_abraham": "C10 C02 C03 C25 C26 C24 C23 C21 C22",
 "bacon": "C11 C03 C25 C26 C21 C24 C22",
 "synthetic_did": "C12 C02 C25 C23 C24 C22 C21 C26",
 "triple_diff": "C13 C02 C03 C25 C24 C26 C22 C21",
 "trop": "C14 C02 C03 C25 C24 C23 C26 C22 C21",
 "honest_did": "C15 C03 C24 C25 C02",
 "pretrends": "C16 C03 C24 C25",
 "power": "C17 C03 C24 C25",
 "diagnostics": "C18 C02 C03 C25 C23",
 "prep": "C19 C25 C21",
 "prep_dgp": "C20 C23 C25",
 "results": "C03 C02 C24",
 "datasets": "C28 C19",
 "visualization": "C03 C25",
}
WALL = {"C01": 1.2, "C02": 5.3, "C03": 6.5, "C04": 1.4, "C05": 1, "C06": 1.4, "C07": 12, "C08": 1.5, "C09": 1.5, "C10": 14, "C11": 1.8, "C12": 7,
        "C13": 1.8, "C14": 17, "C15": 3.5, "C16": 3.3, "C17": 3.6, "C18": 8.2, "C19": 2.2, "C20": 1.3, "C21": 21, "C22": 10, "C23": 18, "C24": 14,
        "C25": 9, "C26": 9, "C28": 4}
BUDGET = float(os.environ.get("MUT_BUDGET", "16"))      # CPU seconds per check on a clean run


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value)); skip.add(id(n.body[0]))
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__post_init__x"):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.AnnAssign) or (isinstance(n, ast.FunctionDef)):
            for a in ([n.annotation] if isinstance(n, ast.AnnAssign) else [n.returns] + [x.annotation for x in n.args.args]):
                if a is not None:
                    skip |= {id(m) for m in ast.walk(a)}
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("warnings.warn", "cast"):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(m) for m in ast.walk(n) if m is not n}
        if isinstance(n, ast.If) and "HAS_RUST" in ast.unparse(n.test):
            skip |= {id(m) for s in n.body for m in ast.walk(s)} | {id(m) for m in ast.walk(n.test)}
    def op_between(l, r, old, new, what, n):
        a, z = pos(l)[1], pos(r)[0]
        seg = b[a:z].decode()
        if seg.count(old) == 1:
            out.append((n.lineno, a, z, seg.replace(old, new), what))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.NotIn: ("not in", "in")}.get(type(n.ops[0]))
            if t:
                op_between(n.left, n.comparators[0], t[0], t[1], f"{t[0]} -> {t[1]}", n)
        elif isinstance(n, ast.BinOp):
            t = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}.get(type(n.op))
            s = ast.unparse(n)
            if t and "'" not in s and '"' not in s.replace('["', '').replace('"]', ''):
                op_between(n.left, n.right, t[0], t[1], f"{t[0]} -> {t[1]}", n)
        elif isinstance(n, ast.BoolOp):
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            op_between(n.values[0], n.values[1], o, w, f"{o} -> {w}", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            a, z = pos(n); i = pos(n.operand)[0]
            out.append((n.lineno, a, i, "", "drop unary"))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            a, z = pos(n)
            if isinstance(n.value, bool):
                out.append((n.lineno, a, z, str(not n.value), f"{n.value} flipped"))
            elif isinstance(n.value, int):
                out.append((n.lineno, a, z, str(n.value + 1), f"{n.value} -> +1"))
            elif isinstance(n.value, float):
                out.append((n.lineno, a, z, repr(n.value * 1.5 + (0.5 if n.value == 0 else 0)), f"{n.value} * 1.5"))
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            for x, y in (("np.mean", "np.median"), ("np.max", "np.min"), ("np.min", "np.max"), ("max", "min"), ("min", "max"), ("np.abs", "np.negative"), ("abs", "-"), ("np.sqrt", "np.abs"), ("np.maximum", "np.minimum"), ("np.minimum", "np.maximum"), ("np.any", "np.all"), ("np.all", "np.any"), ("any", "all"), ("all", "any"), ("np.nanmean", "np.mean"), ("np.nanstd", "np.std"), ("np.isfinite", "np.isnan"), ("np.var", "np.std"), ("sorted", "list")):
                if f == x and x != "abs":
                    a, z = pos(n.func)
                    out.append((n.lineno, a, z, y, f"{x} -> {y}"))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "dropna", "sort_values", "astype", "reset_index", "sort_index"):
                a, z = pos(n); v = pos(n.func.value)
                out.append((n.lineno, a, z, b[v[0]:v[1]].decode(), f"drop .{n.func.attr}()"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), ast.Constant):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(n, ast.AugAssign) or isinstance(tg, ast.Subscript):
                a, z = pos(n)
                out.append((n.lineno, a, z, "pass", "drop statement"))
        elif isinstance(n, (ast.Raise, ast.Continue)):
            a, z = pos(n)
            out.append((n.lineno, a, z, "pass", "drop " + type(n).__name__))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not ast.unparse(n.value.func).startswith(("warnings", "lines", "print", "ax.", "plt.")):
            a, z = pos(n)
            out.append((n.lineno, a, z, "pass", "drop call"))
        elif isinstance(n, ast.If):
            a, z = pos(n.test)
            out.append((n.lineno, a, z, "False", "if False"))
    return b, out


def main():
    mod, N = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3].isdigit() else 0
    src = open(f"/repo/diff_diff/{mod}.py").read()
    b, ms = mutants(src)
    if "--lines" in sys.argv:
        lo, hi = map(int, sys.argv[sys.argv.index("--lines") + 1].split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    random.Random(seed).shuffle(ms)
    good = []
    for m in ms:
        t = b[:m[1]] + m[3].encode() + b[m[2]:]
        try:
            compile(t, mod, "exec")
        except SyntaxError:
            continue
        good.append((m, t))
        if len(good) >= N:
            break
    print(f"{mod}: {len(ms)} mutants possible, running {len(good)}", flush=True)
    W = int(os.environ.get("MUT_WORKERS", "8"))
    slots = queue.Queue()
    for i in range(W):
        d = f"/tmp/mut/{mod}{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/diff_diff", d + "/diff_diff", ignore=shutil.ignore_patterns("__pycache__"))
        v = d + "/verif"
        os.makedirs(v)
        for x in ("mon", "run.sh", "known_findings.txt"):
            (shutil.copytree if os.path.isdir(f"/verif/{x}") else shutil.copy)(f"/verif/{x}", f"{v}/{x}")
        slots.put(d)
    log = open(f"/tmp/mut/{mod}.log", "a")
    lock = threading.Lock()
    tally = {}
    def one(job):
        (line, a, z, rep, what), text = job
        d = slots.get()
        try:
            open(f"{d}/diff_diff/{mod}.py", "wb").write(text)
            res = "SURVIVED"
            for c in MAP[mod].split():
                mult = min(1.0, BUDGET / (7 * WALL[c]))
                env = {**os.environ, "VERIF_REPO": d, "VERIF_PROCS": "1", "VERIF_FAILFAST": "1", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
                try:
                    r = subprocess.run(["bash", f"{d}/verif/run.sh", c, "--mult", f"{mult:.3f}"], env=env, capture_output=True, text=True, timeout=280)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 124
                if rc:
                    res = f"{c}({rc})"
                    break
            L = src.split("\n")[line - 1].strip()
            before = b[a:z].decode()
            with lock:
                tally[res] = tally.get(res, 0) + 1
                msg = f"{mod}:{line}: {what} | {L[:150]} | {before[:60]!r} => {rep[:60]!r} | {res}"
                log.write(msg + "\n"); log.flush()
                if res == "SURVIVED":
                    print(msg, flush=True)
        finally:
            open(f"{d}/diff_diff/{mod}.py", "w").write(src)
            slots.put(d)
    t0 = time.time()
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, good))
    for i in range(W):
        shutil.rmtree(f"/tmp/mut/{mod}{i}", ignore_errors=True)
    print(mod, round(time.time() - t0), "s", dict(sorted(tally.items())), flush=True)


main()
