"""C09: staggered aggregations and the multiplier bootstrap."""
import numpy as np
import pandas as pd

from mon import refs
from mon.gen import pick, maybe, alpha_of
from mon.props.c08 import make, kw_of, ref_cells
from diff_diff import CallawaySantAnna

RULE = ("staggered panels of every shape (as in C08) x aggregation request x balance_e x anticipation x bootstrap weights/size/seed; "
        "non-trivial = distinct (configuration, cohort structure, aggregation) state")
NOTE = "Aggregates recomputed from the reported cells, their SEs from influence functions recomputed from the raw data; bootstrap statistics from the recorded draws."
SCALE = 3                     # quick-tier multiplier of the case counts in KINDS
REQUIRED = {"overall": 150, "event-study": 400, "group": 200, "se-agg": 600, "request-invariance": 100, "boot-draws": 50, "boot-ratio": 100, "moments": 80}


def psi_of(cells):
    """Unit-level influence function of each cell (no covariates)."""
    out = {}
    for k, c in cells.items():
        v = np.zeros(len(c["tr"]))
        d = c["d"]
        v[c["tr"]] = (d[c["tr"]] - d[c["tr"]].mean()) / c["nt"]
        v[c["co"]] -= (d[c["co"]] - d[c["co"]].mean()) / c["nc"]
        out[k] = v
    return out


def weights(gte, a, balance):
    """{('overall',): {cell: w}, ('e', e): ..., ('g', g): ...} from reported cells and their treated counts."""
    post = {k: float(v["n_treated"]) for k, v in gte.items() if k[1] >= k[0] - a}
    out = {}
    if post:
        s = sum(post.values())
        out[("overall",)] = {k: w / s for k, w in post.items()}
    keep = None if balance is None else {k[0] for k in gte if k[1] - k[0] == balance}
    by = {}
    for k, v in gte.items():
        if keep is None or k[0] in keep:
            by.setdefault(k[1] - k[0], {})[k] = float(v["n_treated"])
    for e, d in by.items():
        s = sum(d.values())
        out[("e", float(e))] = {k: w / s for k, w in d.items()}
    gs = {}
    for k in post:
        gs.setdefault(k[0], []).append(k)
    for g, ks in gs.items():
        out[("g", float(g))] = {k: 1 / len(ks) for k in ks}
    return out


def wif_cells(w, gte, cells):
    """Weight-estimation part over the units actually used by each cell (an average weighted by cell counts)."""
    tot = sum(float(gte[k]["n_treated"]) for k in w)
    theta = sum(x * gte[k]["effect"] for k, x in w.items())
    return sum(cells[k]["tr"].astype(float) * (gte[k]["effect"] - theta) / tot for k in w)


def wif(w, gte, g, mask):
    """Weight-estimation part of the overall influence function over the units in mask."""
    n = int(mask.sum())
    ks = list(w)
    att = np.array([gte[k]["effect"] for k in ks])
    pg = np.array([(g == k[0]).sum() / n for k in ks])
    S = pg.sum()
    ind = (g[mask][:, None] == np.array([k[0] for k in ks])[None, :]).astype(float) - pg
    w1 = ind / S - np.outer(ind.sum(1), pg) / S ** 2
    out = np.zeros(len(g))
    out[mask] = w1 @ att / n
    return out


def k_agg(mon, rng, tier):
    df, m = make(rng)
    kw = kw_of(rng)
    bal = None if maybe(rng, 0.7) else int(rng.integers(0, 3))
    msg = f"{kw} balance_e={bal} cohorts={m['cohorts']} times={m['times']}"
    mon.describe(spec=msg, n=len(df))
    cells, units, g = ref_cells(df, kw)
    if not cells:
        return
    r = CallawaySantAnna(**kw).fit(df, "y", "unit", "time", "first_treat", aggregate="all", balance_e=bal)
    gte = {(float(a), float(b)): v for (a, b), v in r.group_time_effects.items()}
    if set(gte) != set((float(a), float(b)) for a, b in cells):
        return                                            # C08's business
    cells = {(float(a), float(b)): v for (a, b), v in cells.items()}
    psi = psi_of(cells)
    W = weights(gte, kw["anticipation"], bal)
    ys = np.nanstd(df.y.to_numpy(float))
    eff = lambda w: sum(x * gte[k]["effect"] for k, x in w.items())
    comb = lambda w: sum(x * psi[k] for k, x in w.items())
    if ("overall",) in W:
        w = W[("overall",)]
        mon.close("overall", r.overall_att, eff(w), rtol=1e-9, atol=1e-10 * ys, msg=f"{msg}: overall ATT")
        base = comb(w)
        used = np.zeros(len(g), bool)
        for k in w:
            used |= cells[k]["tr"] | cells[k]["co"]
        cand = [np.sqrt(((base + wif(w, gte, g, mk)) ** 2).sum()) for mk in (used, np.ones(len(g), bool))]
        cand.append(np.sqrt(((base + wif_cells(w, gte, cells)) ** 2).sum()))
        mon.check("se-overall", any(abs(r.overall_se - c) <= 1e-7 * c + 1e-10 for c in cand), f"{msg}: overall se {r.overall_se} want {cand}")
        refs.inference(mon, "inference", r.overall_att, r.overall_se, r.overall_t_stat, r.overall_p_value, r.overall_conf_int, kw["alpha"], None, f"{msg}: overall")
    else:
        mon.check("overall", np.isnan(r.overall_att) and np.isnan(r.overall_se) and np.isnan(r.overall_p_value) and np.isnan(r.overall_conf_int).all(),
                  f"{msg}: no post cell but overall={r.overall_att}")
    es = {float(k): v for k, v in r.event_study_effects.items()}
    ref = float(-1 - kw["anticipation"])
    want = {k[1] for k in W if k[0] == "e"}
    full = want | ({ref} if kw["base_period"] == "universal" and want else set())
    mon.check("event-keys", set(es) == full, f"{msg}: event times {sorted(es)} want {sorted(full)}")
    for e in es:
        if e not in want:
            q = es[e]
            mon.check("reference", q["effect"] == 0 and np.isnan(q["se"]) and np.isnan(q["p_value"]) and q["n_groups"] == 0, f"{msg}: reference {q}")
            continue
        w = W[("e", e)]
        q = es[e]
        mon.close("event-study", q["effect"], eff(w), rtol=1e-9, atol=1e-10 * ys, msg=f"{msg}: e={e}")
        mon.close("se-agg", q["se"], np.sqrt(((comb(w) + wif_cells(w, gte, cells)) ** 2).sum()), rtol=1e-7, atol=1e-9, msg=f"{msg}: se e={e}")
        mon.check("n-groups", q["n_groups"] == len(w), f"{msg}: n_groups e={e}")
        refs.inference(mon, "inference", q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], kw["alpha"], None, f"{msg}: e={e}")
    ge = {float(k): v for k, v in r.group_effects.items()}
    mon.check("group-keys", set(ge) == {k[1] for k in W if k[0] == "g"}, f"{msg}: groups {sorted(ge)}")
    for c, q in ge.items():
        w = W.get(("g", c))
        if not w:
            continue
        mon.close("group", q["effect"], eff(w), rtol=1e-9, atol=1e-10 * ys, msg=f"{msg}: g={c}")
        mon.close("se-agg", q["se"], np.sqrt((comb(w) ** 2).sum()), rtol=1e-7, atol=1e-9, msg=f"{msg}: se g={c}")
        mon.check("n-groups", q["n_periods"] == len(w), f"{msg}: n_periods g={c}")
        refs.inference(mon, "inference", q["effect"], q["se"], q["t_stat"], q["p_value"], q["conf_int"], kw["alpha"], None, f"{msg}: g={c}")
    mon.state("agg", kw["control_group"], kw["base_period"], kw["anticipation"], bal, len(m["cohorts"]), len(cells))


FIELDS = ("effect", "se", "t_stat", "p_value")


def flat(d):
    return {k: [v[f] for f in FIELDS] + list(v["conf_int"]) for k, v in d.items()} if d else {}


def k_requests(mon, rng, tier):
    df, m = make(rng)
    kw = kw_of(rng)
    if maybe(rng):
        kw.update(n_bootstrap=60, seed=int(rng.integers(1e6)), bootstrap_weights=pick(rng, "rademacher", "mammen", "webb"))
    F = lambda a, e=None: (e or CallawaySantAnna(**kw)).fit(df, "y", "unit", "time", "first_treat", aggregate=a)
    try:
        full = F("all")
    except ValueError:
        return
    shared = CallawaySantAnna(**kw)
    for a in rng.permutation([None, "simple", "event_study", "group", "all"]):
        r = F(a, shared)
        mon.close("request-invariance", [r.overall_att, r.overall_se, r.overall_p_value, *r.overall_conf_int],
                  [full.overall_att, full.overall_se, full.overall_p_value, *full.overall_conf_int], rtol=1e-12, msg=f"{kw} aggregate={a}: overall")
        for got, ref, has in ((r.group_time_effects, full.group_time_effects, True), (r.event_study_effects, full.event_study_effects, a in ("event_study", "all")),
                              (r.group_effects, full.group_effects, a in ("group", "all"))):
            mon.check("request-keys", (got is not None) == has, f"aggregate={a}: unexpected presence {got is not None}")
            if has:
                fg, fr = flat(got), flat(ref)
                mon.check("request-keys", list(fg) == list(fr), f"aggregate={a}: keys differ")
                mon.close("request-invariance", [fg[k] for k in fg], [fr[k] for k in fg], rtol=1e-12, msg=f"{kw} aggregate={a}: level values")
    mon.state("requests", kw.get("n_bootstrap", 0) > 0, kw["base_period"], kw["control_group"], len(m["cohorts"]))


def k_boot(mon, rng, tier):
    df, m = make(rng)
    kw = kw_of(rng)
    B = int(pick(rng, 199, 400, 400, 999))
    bw = pick(rng, "rademacher", "mammen", "webb")
    bal = None if maybe(rng, 0.75) else int(rng.integers(0, 2))
    cov = ["x1"] if False else None
    msg = f"{kw} B={B} {bw} balance={bal}"
    mon.describe(spec=msg, n=len(df))
    try:
        a = CallawaySantAnna(**kw).fit(df, "y", "unit", "time", "first_treat", aggregate="all", balance_e=bal)
    except ValueError:
        return
    b = CallawaySantAnna(**kw, n_bootstrap=B, bootstrap_weights=bw, seed=int(rng.integers(1e9))).fit(
        df, "y", "unit", "time", "first_treat", aggregate="all", balance_e=bal)
    cells, units, g = ref_cells(df, kw)
    cells = {(float(x), float(y)): v for (x, y), v in cells.items()}
    psi = psi_of(cells)
    gte = {(float(x), float(y)): v for (x, y), v in a.group_time_effects.items()}
    if set(psi) != set(gte):
        return
    W = weights(gte, kw["anticipation"], bal)
    # cell-count weights of the overall and event-time averages are estimated, the equal weights of a cohort's periods are not
    se_of = lambda key: np.sqrt(((sum(x * psi[k] for k, x in W[key].items()) + (wif_cells(W[key], gte, cells) if key[0] in ("overall", "e") else 0.0)) ** 2).sum())
    R = b.bootstrap_results
    mon.check("boot-meta", R.n_bootstrap == B and R.weight_type == bw and R.alpha == kw["alpha"], f"{msg}: {R.n_bootstrap} {R.weight_type}")
    mc = 5.5 / np.sqrt(2 * B)
    al = kw["alpha"]

    def level(name, got, ref, key):
        mon.close("boot-estimates", got["effect"], ref["effect"], rtol=1e-12, msg=f"{msg}: estimate moved by bootstrap at {key}")
        s = se_of(key)
        if s < 1e-9 * max(1, abs(ref["effect"])):
            return
        mon.check("boot-ratio", abs(got["se"] / s - 1) < mc, f"{msg}: bootstrap se {got['se']} analytic {s} at {key}", key="boot-ratio")
        mon.stream("ratio", float(got["se"] / s))
        lo, hi = got["conf_int"]
        p = got["p_value"]
        mon.check("boot-order", lo <= hi and 1 / (B + 1) - 1e-12 <= p <= 1, f"{msg}: ci {lo, hi} p={p}")
        if p < al - 4 / B:
            mon.check("boot-p-ci", not (lo < 0 < hi), f"{msg}: p={p} but interval {lo, hi} at {key}")
        if p > al + 4 / B:
            mon.check("boot-p-ci", lo <= 0 <= hi, f"{msg}: p={p} but interval {lo, hi} excludes 0 at {key}")
        mon.close("boot-t", got["t_stat"], got["effect"] / got["se"], rtol=1e-9, msg=f"{msg}: t {key}")

    for k, v in b.group_time_effects.items():
        kk = (float(k[0]), float(k[1]))
        W[("c", kk)] = {kk: 1.0}
        level("cell", v, a.group_time_effects[k], ("c", kk))
    for e, v in b.event_study_effects.items():
        if ("e", float(e)) in W:
            level("e", v, a.event_study_effects[e], ("e", float(e)))
        else:
            mon.check("reference", v["effect"] == 0 and np.isnan(v["se"]), f"{msg}: reference period under bootstrap {v}")
    for c, v in b.group_effects.items():
        level("g", v, a.group_effects[c], ("g", float(c)))
    if ("overall",) in W:
        d = np.asarray(R.bootstrap_distribution, float)
        mon.check("boot-draws", d.shape == (B,) and np.isfinite(d).all(), f"{msg}: draws {d.shape}")
        mon.close("boot-draws", b.overall_se, d.std(ddof=1), rtol=1e-9, msg=f"{msg}: se from draws")
        mon.close("boot-draws", list(b.overall_conf_int), np.percentile(d, [50 * al, 100 - 50 * al]), rtol=1e-9, atol=1e-12, msg=f"{msg}: ci from draws")
        opp = (d <= 0).mean() if b.overall_att >= 0 else (d >= 0).mean()
        mon.close("boot-draws", b.overall_p_value, min(1, max(2 * opp, 1 / (B + 1))), rtol=1e-9, msg=f"{msg}: p from draws")
        mon.close("boot-estimates", b.overall_att, a.overall_att, rtol=1e-12, msg=f"{msg}: overall estimate")
        s = se_of(("overall",))
        if s > 1e-9:
            lo, hi = min(s, a.overall_se), max(s, a.overall_se)
            mon.check("boot-ratio", lo * (1 - mc) < b.overall_se < hi * (1 + mc), f"{msg}: overall bootstrap se {b.overall_se} analytic {lo}..{hi}", key="boot-ratio")
            mon.check("boot-centre", abs(d.mean() - b.overall_att) < 5.5 * b.overall_se / np.sqrt(B), f"{msg}: draws centred at {d.mean()} not {b.overall_att}")
    mon.close("boot-store", [R.overall_att_se, *R.overall_att_ci, R.overall_att_p_value], [b.overall_se, *b.overall_conf_int, b.overall_p_value], rtol=0, atol=0, msg="bootstrap_results vs result")
    mon.state("boot", bw, B, kw["control_group"], kw["base_period"], kw["anticipation"], bal, len(m["cohorts"]))


def k_moments(mon, rng, tier):
    """Many draws on one panel: spread and skewness of the overall draws are those of the influence function times the documented weights."""
    df, m = make(rng)
    kw = kw_of(rng)
    bw = pick(rng, "rademacher", "mammen", "webb")
    B = 20000
    try:
        r = CallawaySantAnna(**kw, n_bootstrap=B, bootstrap_weights=bw, seed=int(rng.integers(1e9))).fit(df, "y", "unit", "time", "first_treat")
    except ValueError:
        return
    cells, units, g = ref_cells(df, kw)
    cells = {(float(x), float(y)): v for (x, y), v in cells.items()}
    psi = psi_of(cells)
    gte = {(float(x), float(y)): v for (x, y), v in r.group_time_effects.items()}
    W = weights(gte, kw["anticipation"], None)
    if set(psi) != set(gte) or ("overall",) not in W:
        return
    w = W[("overall",)]
    ph = sum(x * psi[k] for k, x in w.items()) + wif_cells(w, gte, cells)
    s = float(np.sqrt((ph ** 2).sum()))
    d = np.asarray(r.bootstrap_results.bootstrap_distribution, float)
    if s < 1e-9 or not np.isfinite(d).all():
        return
    msg = f"{kw} {bw}"
    z = (d - r.overall_att) / s
    kurt = float((z ** 4).mean())
    mon.check("moments", abs(z.mean()) < 6 / np.sqrt(B), f"{msg}: draws centred {z.mean():.4f} se away from the estimate")
    mon.check("moments", abs(z.var() - 1) < 6 * np.sqrt(max(kurt - 1, 0.5) / B), f"{msg}: variance of the draws is {z.var():.4f} times the squared influence")
    skew = float((z ** 3).mean())
    want = (1.0 if bw == "mammen" else 0.0) * float((ph ** 3).sum()) / s ** 3
    mon.check("moments", abs(skew - want) < 6 * np.sqrt((z ** 6).mean() / B), f"{msg}: skewness {skew:.3f} instead of {want:.3f}")
    mon.state("moments", bw, kw["control_group"], kw["base_period"], round(want, 1))


def k_weights(mon, rng, tier):
    """Third moment of the overall draws identifies the weight family (mammen is skewed, the others are not)."""
    df, m = make(rng)
    out = {}
    for bw in ("rademacher", "mammen", "webb"):
        try:
            r = CallawaySantAnna(n_bootstrap=999, bootstrap_weights=bw, seed=5).fit(df, "y", "unit", "time", "first_treat")
        except ValueError:
            return
        out[bw] = np.asarray(r.bootstrap_results.bootstrap_distribution)
    if np.isnan(out["webb"]).any():
        return
    mon.check("weight-family", not np.allclose(out["webb"], out["rademacher"]) and not np.allclose(out["mammen"], out["rademacher"]), "weight type ignored")
    s = [float(o.std(ddof=1)) for o in out.values()]
    mon.check("weight-family", max(s) < 1.3 * min(s) + 1e-12, f"SE differ by weight type {s}")
    mon.state("weights", len(m["cohorts"]))


def FINAL(mon, streams, tier):
    x = np.log(np.array(streams.get("ratio", [])))
    if len(x) > 200:
        # many correlated ratios: their mean must be near zero
        mon.check("boot-ratio-mean", abs(x.mean()) < 0.02, f"mean log(bootstrap se / analytic se) = {x.mean():.4f} over {len(x)} effects")


KINDS = {"agg": (k_agg, 260, 6000), "requests": (k_requests, 30, 500), "boot": (k_boot, 60, 1500), "moments": (k_moments, 60, 1000), "weights": (k_weights, 8, 60)}
