"""Runtime-monitoring harness: case scheduling, monitors, verdicts, evidence.

A property module (mon/props/cNN.py) declares

    RULE        one sentence: how cases are made and what makes one non-trivial
    KINDS       {kind: (function(mon, rng, tier), n_quick, n_thorough)}
    REQUIRED    {monitor name: minimum number of evaluations per quick run}

Each case is one call of a kind's function with its own PRNG (derived from
VERIF_SEED, kind and index only), driving the real code in /repo and feeding
what it observes to monitors through `mon`.  Verdict is three-valued:
violated / held on what was observed / inconclusive (a required monitor was
not reached often enough, or the harness itself failed).
"""
import contextlib
import hashlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """Stops the current case after a violation that makes going on pointless."""


def _short(x, n=400):
    s = str(x)
    return s if len(s) <= n else s[:n] + "..."


class Mon:
    """Collects the observations of one case."""

    def __init__(self, kind, index, tier="quick"):
        self.kind, self.index, self.tier = kind, index, tier
        self.events = Counter()
        self.states = set()
        self.violations = []
        self.notes = {}
        self.nontrivial = False
        self.sample = None
        self.streams = {}

    # -- evidence -----------------------------------------------------------
    def saw(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        """Record a distinct abstract state (configuration x data shape) reached."""
        self.states.add(repr(key))
        self.nontrivial = True

    def describe(self, **kw):
        self.notes.update({k: _short(v, 160) for k, v in kw.items()})

    def stream(self, name, value):
        """Append a value to a cross-case stream (checked offline at the end)."""
        self.streams.setdefault(name, []).append(value)

    # -- monitors -----------------------------------------------------------
    def violate(self, name, msg, key=None):
        self.violations.append({"monitor": name, "key": key or name, "msg": _short(msg, 1500)})

    def check(self, name, cond, msg="", key=None):
        self.events[name] += 1
        if not cond:
            self.violate(name, msg() if callable(msg) else msg, key)
            return False
        return True

    def close(self, name, got, want, rtol=1e-7, atol=1e-9, msg="", key=None, scale=None):
        """|got-want| <= atol + rtol*max(|want|, scale), NaNs matching NaNs, shapes equal."""
        self.events[name] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self.violate(name, f"{msg}: not numeric: got={got!r} want={want!r} ({e})", key)
            return False
        if g.shape != w.shape:
            self.violate(name, f"{msg}: shape {g.shape} != {w.shape}", key)
            return False
        if g.size == 0:
            return True
        gn, wn = np.isnan(g), np.isnan(w)
        if not np.array_equal(gn, wn):
            self.violate(name, f"{msg}: NaN pattern differs: got={_arr(g)} want={_arr(w)}", key)
            return False
        inf = np.isinf(g) | np.isinf(w)
        if not np.array_equal(g[inf], w[inf]):
            self.violate(name, f"{msg}: infinities differ: got={_arr(g)} want={_arr(w)}", key)
            return False
        ok = ~(gn | inf)
        if not ok.any():
            return True
        ref = np.abs(w[ok])
        if scale is not None:
            ref = np.maximum(ref, abs(scale))
        err = np.abs(g[ok] - w[ok])
        bad = err > atol + rtol * ref
        if bad.any():
            i = int(np.argmax(err - rtol * ref))
            self.violate(name, f"{msg}: got={_arr(g)} want={_arr(w)} worst |diff|={err.max():.3g} "
                               f"at {i} (got {g[ok][i]!r}, want {w[ok][i]!r})", key)
            return False
        return True

    def raises(self, name, exc, fn, msg="", key=None):
        """fn must raise one of exc (a tuple of exception types)."""
        self.events[name] += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self.violate(name, f"{msg}: raised {type(e).__name__}: {e} instead of {exc}", key)
            return False
        self.violate(name, f"{msg}: no error; returned {_short(r, 200)}", key)
        return False


def _arr(a):
    a = np.asarray(a)
    return np.array2string(a.ravel()[:12], precision=8, threshold=12)


def case_rng(seed, kind, index):
    return np.random.default_rng([int(seed), zlib.crc32(kind.encode()), int(index)])


def in_repo(tb):
    return any(os.path.abspath(f.filename).startswith(REPO + "/") for f in traceback.extract_tb(tb))


class CaseTimeout(BaseException):
    pass


_PROP = None


def _alarm(*_):
    raise CaseTimeout()


def _run_case(args):
    import signal
    kind, index, seed, tier, limit = args
    mon = Mon(kind, index, tier)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    status = "ok"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"), contextlib.redirect_stdout(open(os.devnull, "w")):
                _PROP.KINDS[kind][0](mon, case_rng(seed, kind, index), tier)
    except Violation:
        pass
    except CaseTimeout:
        status = "timeout"
    except MemoryError:
        status = "memory"
    except BaseException as e:  # noqa: BLE001 - anything the library throws is an observation
        tb = traceback.format_exc(limit=-6)
        where = "library" if in_repo(e.__traceback__) else "observer"
        mon.violate("unexpected-exception", f"{where}: {type(e).__name__}: {e}\n{tb}",
                    key=f"unexpected-exception:{type(e).__name__}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return {"kind": kind, "index": index, "events": dict(mon.events), "states": mon.states,
            "violations": mon.violations, "notes": mon.notes, "nontrivial": mon.nontrivial,
            "streams": mon.streams, "status": status, "t": time.time() - t0}


def load_known(pid):
    """Known findings: lines 'known: property=<id> key=<mechanism key> :: text' (fixed: lines ignored)."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                head, _, text = line[6:].partition("::")
                f = dict(kv.split("=", 1) for kv in head.split() if "=" in kv)
                if f.get("property") == pid:
                    out[f["key"]] = text.strip()
    return out


def main(pid, prop, argv):
    global _PROP
    _PROP = prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(pid)
    t0 = time.time()
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        out = _run_case((r["kind"], r["index"], r["seed"], r["tier"], 600))
        print(json.dumps({k: (sorted(v) if isinstance(v, set) else v) for k, v in out.items()
                          if k != "streams"}, indent=1, default=str))
        return 1 if [v for v in out["violations"] if v["key"] not in known] else 0
    only = argv[argv.index("--kind") + 1].split(",") if "--kind" in argv else None
    mult = float(argv[argv.index("--mult") + 1]) if "--mult" in argv else 1.0
    cap = {"quick": 240.0, "thorough": 780.0}[tier]
    case_limit = {"quick": 90.0, "thorough": 240.0}[tier]
    tasks = []
    for kind, (fn, nq, nt) in prop.KINDS.items():
        if only and kind not in only:
            continue
        n = max(1, int(math.ceil((nq * getattr(prop, "SCALE", 1) if tier == "quick" else nt) * mult)))
        tasks += [(kind, i, seed, tier, case_limit) for i in range(n)]
    # interleave kinds so that a cap cuts all of them evenly
    per = Counter()
    tot = Counter(t[0] for t in tasks)
    tasks.sort(key=lambda t: ((t[1] + 0.5) / tot[t[0]], t[0]))
    events, states, viol, samples = Counter(), set(), [], []
    streams, status, slow = {}, Counter(), Counter()
    done = Counter()
    nontrivial = 0
    seen_notes = set()
    signatures = set()
    procs = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 1)))
    with mp.get_context("fork").Pool(procs, maxtasksperchild=200) as pool:
        it = pool.imap_unordered(_run_case, tasks, chunksize=1)
        for _ in range(len(tasks)):
            left = cap - (time.time() - t0)
            try:
                out = it.next(timeout=max(left, 0.01))
            except mp.TimeoutError:
                status["not-run (time cap)"] += len(tasks) - sum(done.values())
                pool.terminate()
                break
            done[out["kind"]] += 1
            slow[out["kind"]] += out["t"]
            status[out["status"]] += 1
            events.update(out["events"])
            states |= out["states"]
            nontrivial += bool(out["nontrivial"])
            if out["states"]:
                signatures.add(frozenset(out["states"]))
            for k, v in out["streams"].items():
                streams.setdefault(k, []).extend((out["kind"], out["index"], x) for x in v)
            for v in out["violations"]:
                viol.append({**v, "kind": out["kind"], "index": out["index"], "notes": out["notes"]})
            if os.environ.get("VERIF_FAILFAST") and any(v["key"] not in known for v in out["violations"]):
                pool.terminate()
                break
            if out["notes"] and out["kind"] not in seen_notes:
                seen_notes.add(out["kind"])
                samples.append({"kind": out["kind"], "index": out["index"], **out["notes"]})
    final = getattr(prop, "FINAL", None)
    if final and (not only):
        mon = Mon("offline", 0, tier)
        for k in streams:
            streams[k].sort(key=lambda e: (e[0], e[1]))
        try:
            final(mon, {k: [e[2] for e in v] for k, v in streams.items()}, tier)
        except Exception as e:
            mon.violate("offline-checker", f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}")
        events.update(mon.events)
        states |= mon.states
        viol += [{**v, "kind": "offline", "index": 0, "notes": mon.notes} for v in mon.violations]
    wall = time.time() - t0
    new = [v for v in viol if v["key"] not in known]
    old = [v for v in viol if v["key"] in known]
    missing = {k: (events.get(k, 0), n) for k, n in getattr(prop, "REQUIRED", {}).items()
               if events.get(k, 0) < n * min(1.0, mult)} if not only else {}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"),
          "coverage": {"evaluations": int(sum(done.values())),
                       "distinct_nontrivial": int(len(signatures)),
                       "distinct_states": int(len(states)),
                       "rule": prop.RULE,
                       "samples": samples[:12],
                       "nontrivial_cases": int(nontrivial),
                       "cases_per_kind": dict(done),
                       "monitor_evaluations": dict(sorted(events.items())),
                       "case_status": dict(status),
                       "known_finding_hits": dict(Counter(v["key"] for v in old))},
          "assumptions": [a] if isinstance(a := getattr(prop, "ASSUMPTIONS", []), str) else list(a),
          "wall_s": round(wall, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for key in sorted(known):
        n = sum(v["key"] == key for v in old)
        print(f"KNOWN-FINDING: property={pid} {known[key]} (observed {n} times in this run)")
    if "-v" in argv:
        print(json.dumps(ev["coverage"], indent=1, default=str)[:6000])
        print({k: round(v, 1) for k, v in slow.most_common()})
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        by = {}
        for v in new:
            by.setdefault(v["key"], []).append(v)
        for i, (key, vs) in enumerate(sorted(by.items(), key=lambda kv: -len(kv[1]))[:8]):
            v = vs[0]
            h = hashlib.sha1(f"{key}{v['kind']}{v['index']}{seed}{tier}".encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{pid}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier, **v}, f, indent=1, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  [{len(vs)}x] {v['monitor']} ({v['kind']}#{v['index']}): {v['msg'][:700]}")
        print(f"{pid}: {len(new)} violations in {sum(done.values())} cases, {wall:.1f}s")
        return 1
    if missing:
        print(f"INCONCLUSIVE property={pid}: monitors not reached often enough: {missing}; status {dict(status)}")
        return 3
    print(f"{pid}: held on {sum(done.values())} cases, {sum(events.values())} monitor evaluations, "
          f"{len(states)} distinct states, {wall:.1f}s; {dict(status)}")
    return 0
