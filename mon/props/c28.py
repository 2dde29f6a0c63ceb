"""C28: dataset loading survives network and cache faults."""
import contextlib
import os
import resource
import shutil
import signal
import socket
import struct
import tempfile
import threading
import time
import urllib.request
import warnings
from io import BytesIO

os.environ["HOME"] = os.path.join(tempfile.gettempdir(), f"mon-c28-home-{os.getuid()}")
import numpy as np
import pandas as pd

from mon.gen import pick, maybe
from diff_diff import datasets

RULE = ("random histories of 3-14 operations (plain and forced loads of every dataset by both entry points, cache clears, external cache corruption, crashes at a chosen byte of the cache write, full or "
        "unwritable disks, concurrent loads) against a loopback HTTP server that serves whole, truncated, stalled, reset, redirected, undecodable, empty or non-table answers; non-trivial = distinct (operation, fault, cache state)")
NOTE = ("A reference model holds the last completely downloaded bytes per dataset; every returned frame must be that table, the freshly served one, or the built-in one, as the history dictates. "
        "Real sockets and urllib; crashes are real process deaths (RLIMIT_FSIZE) inside the cache write of a forked child.")
ASSUMPTIONS = "The loaders reach the network through urllib's default opener over https; the cache lives in the module's cache directory (redirected to a scratch folder)."
SCALE = 2                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"load": 300, "reuse": 60, "fallback": 60, "probe": 100, "crash": 20, "race": 8, "clear": 20, "unknown": 10, "says-so": 40}
NAMES = ["card_krueger", "castle_doctrine", "divorce_laws", "mpdta"]
BAD = ["404", "500", "refused", "reset", "short", "stall", "stallbody", "latin", "binary", "empty", "html", "htmlcsv", "header", "badstatus", "loop", "dns", "chunkcut"]


# ---- the tables served -------------------------------------------------------
def raw_table(rng, name, rows=None):
    n = rows or int(rng.integers(1, 40))
    f = lambda k=2: np.round(rng.normal(10, 5, n), k)
    if name == "card_krueger":
        d = {pick(rng, "sheet", "store_id"): np.arange(1, n + 1), "chain": rng.choice(["bk", "kfc", "roys"], n), "emp_pre": f(), "emp_post": f(), "wage_pre": f(), "wage_post": f()}
        if maybe(rng):
            d["nj"] = rng.integers(0, 2, n)
        else:
            d["state"] = rng.choice(["NJ", "PA"], n)
    elif name == "castle_doctrine":
        d = {"state": rng.choice(["FL", "TX", "CA"], n), "year": rng.integers(2000, 2011, n), "homicide_rate": f()}
        if maybe(rng):
            d["effyear"] = np.where(rng.random(n) < 0.4, np.nan, 2005)
            d["sid"] = rng.integers(1, 51, n)
        else:
            d["first_treat"] = rng.choice([0, 2005, 2007], n)
    elif name == "divorce_laws":
        d = {"state": rng.choice(["CA", "NY", "TX"], n), "year": rng.integers(1964, 1990, n), "divorce_rate": f(), "suicide_rate": f()}
        if maybe(rng):
            d["unilateral"] = rng.integers(0, 2, n)
            d["stfips"] = rng.integers(1, 51, n)
        else:
            d["first_treat"] = rng.choice([0, 1970, 1973], n)
    else:
        d = {"countyreal": np.arange(n) // 5, "year": 2003 + np.arange(n) % 5, "lpop": f(4), "lemp": f(4), pick(rng, "first.treat", "first_treat"): rng.choice([0, 2004, 2006], n), "treat": rng.integers(0, 2, n)}
    df = pd.DataFrame(d)
    if maybe(rng, 0.3):
        df["note"] = rng.choice(["a,b", 'say "x"', "caf\u00e9", "plain"], n)
    return df.to_csv(index=False, lineterminator=pick(rng, "\n", "\n", "\r\n")).encode("utf-8")


def expected(name, raw):
    d = pd.read_csv(BytesIO(raw))
    if name == "card_krueger":
        d = d.rename(columns={"sheet": "store_id"})
        if "state" not in d:
            d["state"] = ["NJ" if v == 1 else "PA" for v in d.nj]
        d["treated"] = [int(s == "NJ") for s in d.state]
        d["emp_change"] = d.emp_post - d.emp_pre
    elif name == "castle_doctrine":
        d = d.rename(columns={"sid": "state_id"})
        if "first_treat" not in d:
            d["first_treat"] = [0 if np.isnan(v) else int(v) for v in d.effyear]
        d["cohort"] = d.first_treat
        d["treated"] = [int(g > 0 and y >= g) for g, y in zip(d.first_treat, d.year)]
    elif name == "divorce_laws":
        d = d.rename(columns={"stfips": "state_id"})
        if "first_treat" not in d:
            first = {s: min((y for y, u, s2 in zip(d.year, d.unilateral, d.state) if u == 1 and s2 == s), default=0) for s in set(d.state)}
            d["first_treat"] = [int(first[s]) for s in d.state]
        d["cohort"] = d.first_treat
        d["treated"] = d.unilateral if "unilateral" in d else [int(g > 0 and y >= g) for g, y in zip(d.first_treat, d.year)]
    else:
        d = d.rename(columns={"first.treat": "first_treat"})
        d["cohort"] = d.first_treat
    return d


_BUILT = {}


def builtin(name):
    if name not in _BUILT:
        _BUILT[name] = getattr(datasets, f"_construct_{name}_data")()
    return _BUILT[name]


def same(a, b):
    if not isinstance(a, pd.DataFrame) or set(a.columns) != set(b.columns) or len(a) != len(b):
        return False
    for c in b.columns:
        x, y = a[c].tolist(), b[c].tolist()
        if any(not (u == v or (isinstance(u, float) and isinstance(v, float) and u != u and v != v)) for u, v in zip(x, y)):
            return False
    return True


# ---- the network -------------------------------------------------------------
class Server:
    """One-thread-per-connection loopback HTTP server; .script maps dataset -> (mode, bytes)."""

    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.script, self.hits, self.alive = {}, 0, True
        self.served = []
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while self.alive:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        try:
            c.settimeout(5)
            req = b""
            while b"\r\n\r\n" not in req:
                x = c.recv(4096)
                if not x:
                    return
                req += x
            self.hits += 1
            path = req.split()[1].decode()
            mode, body = self.script(path) if callable(self.script) else self.script
            head = lambda st, n, extra="": f"HTTP/1.1 {st}\r\nContent-Type: text/csv\r\n{extra}Content-Length: {n}\r\nConnection: close\r\n\r\n".encode()
            cut = max(1, len(body) // 2)
            if mode == "good":
                c.sendall(head("200 OK", len(body)) + body)
            elif mode == "slow":
                c.sendall(head("200 OK", len(body)) + body[:cut])
                time.sleep(0.02)
                c.sendall(body[cut:])
            elif mode in ("404", "500"):
                c.sendall(head(mode + " Nope", 9) + b"not,here\n")
            elif mode == "reset":
                c.sendall(head("200 OK", len(body)) + body[:cut])
                time.sleep(0.01)
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif mode == "short":
                c.sendall(head("200 OK", len(body)) + body[:cut])
            elif mode == "stall":
                time.sleep(0.6)
            elif mode == "stallbody":
                c.sendall(head("200 OK", len(body)) + body[:cut])
                time.sleep(0.6)
            elif mode == "latin":
                b = body + "caf\u00e9,1,2\n".encode("latin-1") * 3
                c.sendall(head("200 OK", len(b)) + b)
            elif mode == "binary":
                b = b"\x1f\x8b\x08\x00" + bytes(range(256)) * 4
                c.sendall(head("200 OK", len(b)) + b)
            elif mode == "empty":
                c.sendall(head("200 OK", 0))
            elif mode in ("html", "htmlcsv"):
                b = b"<!DOCTYPE html>\n<html><head><title>Sign in</title></head>\n<body>Accept the terms, please, to go on</body></html>\n" if mode == "html" else b"<html>,<b>\n1,2\n3,4\n"
                c.sendall(head("200 OK", len(b)) + b)
            elif mode == "header":
                b = body.split(b"\n")[0] + b"\n"
                c.sendall(head("200 OK", len(b)) + b)
            elif mode == "badstatus":
                c.sendall(b"garbage that is not http at all\r\n\r\n")
            elif mode == "loop":
                c.sendall(f"HTTP/1.1 302 Found\r\nLocation: https://example.org{path}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".encode())
            elif mode == "chunkcut":
                c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n" + f"{len(body):x}\r\n".encode() + body[:cut])
        except OSError:
            pass
        finally:
            c.close()

    def close(self):
        self.alive = False
        with contextlib.suppress(OSError):
            self.sock.shutdown(socket.SHUT_RDWR)
        self.sock.close()


class ToLoopback(urllib.request.HTTPSHandler):
    def __init__(self, srv):
        super().__init__()
        self.srv, self.down = srv, None

    def https_open(self, req):
        if self.down == "dns":
            raise urllib.error.URLError(socket.gaierror(-2, "Name or service not known"))
        port = self.srv.port if self.down is None else 1
        path = req.selector if req.selector.startswith("/") else "/" + req.selector
        r = urllib.request.Request(f"http://127.0.0.1:{port}{path}")
        r.timeout = 0.25
        r.add_unredirected_header("Host", "localhost")
        return urllib.request.HTTPHandler().http_open(r)

    http_open = https_open


@contextlib.contextmanager
def world():
    d = tempfile.mkdtemp(prefix="mon-c28-")
    srv = Server()
    h = ToLoopback(srv)
    old_dir = getattr(datasets, "_CACHE_DIR", None)
    from pathlib import Path
    cache = Path(d) / "cache" / "datasets"
    if old_dir is not None:
        datasets._CACHE_DIR = cache
    op = urllib.request.build_opener(urllib.request.ProxyHandler({}), h)
    old_op = urllib.request._opener
    urllib.request.install_opener(op)
    try:
        yield srv, h, cache
    finally:
        urllib.request.install_opener(old_op)
        if old_dir is not None:
            datasets._CACHE_DIR = old_dir
        srv.close()
        shutil.rmtree(d, ignore_errors=True)


def call(name, force, how):
    if how:
        return datasets.load_dataset(name, force_download=force)
    return getattr(datasets, f"load_{name}")(force_download=force)


def load(mon, name, force, how, msg):
    """Returned frame and whether a stand-in warning was given; a load never raises."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            df = call(name, force, how)
        except Exception as e:
            mon.violate("load", f"{msg}: load raised {type(e).__name__}: {e}")
            return None, None
    return df, any(issubclass(w.category, UserWarning) and name in str(w.message) for w in ws)


def judge(mon, mname, name, df, said, want, msg):
    """want: list of acceptable raw byte tables; None stands for the built-in table."""
    if df is None:
        return
    for w in want:
        if same(df, builtin(name) if w is None else expected(name, w)):
            mon.check("says-so", said == (w is None), f"{msg}: stand-in warning {'missing' if w is None else 'given for real data'}")
            mon.saw(mname)
            return w
    which = "built-in" if same(df, builtin(name)) else f"{len(df)} rows"
    mon.violate(mname, f"{msg}: returned {which}, acceptable: {['built-in' if w is None else str(len(expected(name, w))) + ' rows' for w in want]}")


def set_net(srv, h, mode, body):
    h.down = mode if mode in ("refused", "dns") else None
    srv.script = (mode, body)


def probe(mon, srv, h, name, want, msg):
    """What is in the cache, seen through the public interface with the network down."""
    set_net(srv, h, "refused", b"")
    df, said = load(mon, name, False, False, msg)
    return judge(mon, "probe", name, df, said, want, msg)


def k_history(mon, rng, tier):
    with world() as (srv, h, cache):
        model = {n: None for n in NAMES}
        dirty = set()                                            # externally corrupted entries
        hist = []
        names = [NAMES[i] for i in rng.permutation(4)[: int(rng.integers(1, 4))]]
        for step in range(int(rng.integers(3, 14))):
            name = names[int(rng.integers(len(names)))]
            op = pick(rng, "load", "load", "load", "force", "force", "force", "clear", "corrupt", "probe", "full")
            fault = pick(rng, "good", "good", "slow", BAD[int(rng.integers(len(BAD)))])
            body = raw_table(rng, name)
            hist.append((op, name, fault))
            msg = " > ".join(f"{a}:{b}:{c}" for a, b, c in hist[-5:])
            mon.state(op, fault if op in ("load", "force") else "", model[name] is not None, name in dirty)
            if op in ("load", "force", "full"):
                force = op != "load" if op != "full" else maybe(rng)
                set_net(srv, h, fault, body)
                hits = srv.hits
                old_lim = resource.getrlimit(resource.RLIMIT_FSIZE)
                old_sig = None
                if op == "full":                                 # the disk takes only part of the table
                    old_sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (int(rng.integers(0, max(2, len(body)))), old_lim[1]))
                try:
                    df, said = load(mon, name, force, maybe(rng), msg)
                finally:
                    if op == "full":
                        resource.setrlimit(resource.RLIMIT_FSIZE, old_lim)
                        signal.signal(signal.SIGXFSZ, old_sig)
                have = model[name]
                if not force and have is not None and name not in dirty:
                    judge(mon, "reuse", name, df, said, [have], msg)
                    mon.check("reuse", srv.hits == hits, f"{msg}: cached table downloaded again")
                elif fault in ("good", "slow"):
                    judge(mon, "load", name, df, said, [body], msg)
                    if op == "full":
                        got = probe(mon, srv, h, name, [body, None if name in dirty else have] + ([None] if name in dirty else []), msg + " [after full disk]")
                        if got is body:
                            model[name] = body
                            dirty.discard(name)
                        continue
                    model[name] = body
                    dirty.discard(name)
                else:
                    judge(mon, "fallback", name, df, said, [None if name in dirty else have], msg)
                if op != "full" and maybe(rng, 0.4):
                    probe(mon, srv, h, name, [None if name in dirty else model[name]], msg + " [probe]")
            elif op == "clear":
                keep = cache / "notes.txt"
                if maybe(rng) and cache.exists():
                    keep.write_text("mine")
                datasets.clear_cache()
                for n in names:
                    model[n] = None
                    dirty.discard(n)
                    probe(mon, srv, h, n, [None], msg)
                mon.check("clear", not keep.parent.exists() or not list(cache.glob("*.csv")), f"{msg}: datasets left after clearing")
                if keep.exists():
                    mon.check("clear", keep.read_text() == "mine", "another file was changed")
                    keep.unlink()
            elif op == "corrupt":
                p = cache / f"{name}.csv"
                if p.exists():
                    p.write_bytes(pick(rng, b"", b"\x00\xff\xfe" * 40, b"<html><body>offline</body></html>", b"only_one_column\n1\n"))
                    dirty.add(name)
                    probe(mon, srv, h, name, [None], msg)
            else:
                probe(mon, srv, h, name, [None if name in dirty else model[name]], msg)
        mon.describe(history=" ".join(f"{a}:{b}:{c}" for a, b, c in hist), requests=srv.hits)


def k_crash(mon, rng, tier):
    """The process dies after a chosen number of bytes of the cache write (or right after it)."""
    with world() as (srv, h, cache):
        name = NAMES[int(rng.integers(4))]
        have = None
        if maybe(rng, 0.6):
            have = raw_table(rng, name)
            set_net(srv, h, "good", have)
            load(mon, name, True, False, "first download")
        body = raw_table(rng, name, rows=int(rng.integers(5, 60)))
        set_net(srv, h, "good", body)
        at = int(pick(rng, 0, 1, len(body) // 3, len(body) - 1, int(rng.integers(0, len(body))), len(body) + 10))
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
                call(name, True, False)
            finally:
                os._exit(0)
        _, st = os.waitpid(pid, 0)
        died = os.WIFSIGNALED(st)
        mon.saw("crash")
        got = probe(mon, srv, h, name, [have, body], f"crash at byte {at} of {len(body)} (died={died}, cached before={have is not None})")
        fresh = raw_table(rng, name)
        set_net(srv, h, "good", fresh)
        df, said = load(mon, name, True, True, "forced load after the crash")
        judge(mon, "load", name, df, said, [fresh], "forced load after the crash")
        probe(mon, srv, h, name, [fresh], "cache after recovery")
        mon.state("crash", died, at == 0, at >= len(body), have is not None, got is None, got is body)
        mon.describe(crash_at=at, size=len(body), died=died, cached_before=have is not None)


def k_disk(mon, rng, tier):
    """Cache directory that cannot be created, read or replaced."""
    with world() as (srv, h, cache):
        name = NAMES[int(rng.integers(4))]
        kind = pick(rng, "file-for-dir", "dir-for-file", "readonly")
        if kind == "file-for-dir":
            cache.parent.parent.mkdir(parents=True, exist_ok=True)
            cache.parent.write_text("not a directory")
        elif kind == "dir-for-file":
            (cache / f"{name}.csv").mkdir(parents=True)
        else:
            cache.parent.mkdir(parents=True, exist_ok=True)
            os.symlink("/proc/self/nonexistent-dir", cache)          # dangling: mkdir and writes fail
        body = raw_table(rng, name)
        for force, fault in ((maybe(rng), "good"), (maybe(rng), BAD[int(rng.integers(len(BAD)))]), (False, "good")):
            set_net(srv, h, fault, body)
            df, said = load(mon, name, force, maybe(rng), f"{kind} {fault}")
            judge(mon, "load" if fault == "good" else "fallback", name, df, said, [body] if fault == "good" else [None, body], f"{kind} {fault}")
            mon.state("disk", kind, fault, force)


def k_race(mon, rng, tier):
    """Readers and forced downloaders on one cache entry: every frame is one complete version."""
    with world() as (srv, h, cache):
        name = "mpdta"
        vers = [raw_table(rng, name, rows=4000 + 500 * i) for i in range(3)]
        want = [expected(name, v) for v in vers]
        cnt = [0]
        lock = threading.Lock()

        def script(path):
            with lock:
                cnt[0] += 1
                return ("good", vers[cnt[0] % 3])
        set_net(srv, h, "good", vers[0])
        call(name, True, False)
        srv.script = script
        out, errs = [], []

        def work(i):
            for k in range(4):
                try:
                    with warnings.catch_warnings():
                        out.append(call(name, i % 2 == 0, False))
                except Exception as e:
                    errs.append(repr(e))
        ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        mon.check("race", not errs, f"concurrent loads raised {errs[:2]}")
        lens = {len(w): w for w in want}
        bad = [len(d) for d in out if len(d) not in lens]
        mon.check("race", not bad, f"partial or foreign tables returned: {bad[:5]}")
        mon.check("race", all(same(d, lens[len(d)]) for d in out[::6] if len(d) in lens), "mixed-up table")
        srv.script = None
        probe(mon, srv, h, name, vers, "after the race")
        mon.state("race", tuple(sorted({len(d) for d in out})))


def k_unknown(mon, rng, tier):
    bad = pick(rng, "", "mpdta.csv", "MPDTA", "../mpdta", "card-krueger", "none")
    with world() as (srv, h, cache):
        mon.raises("unknown", (ValueError,), lambda: datasets.load_dataset(bad, force_download=maybe(rng)), f"unknown dataset {bad!r}")
        mon.check("unknown", srv.hits == 0, "request sent for an unknown dataset")
        mon.check("unknown", set(datasets.list_datasets()) == set(NAMES), "list of datasets")
        mon.state("unknown", bad)


KINDS = {"history": (k_history, 120, 2500), "crash": (k_crash, 40, 800), "disk": (k_disk, 24, 300), "race": (k_race, 4, 40), "unknown": (k_unknown, 10, 40)}
