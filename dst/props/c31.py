"""
C31  Every answer is complete and in canonical form.

A service is fed by gauges in any state: dead, stuck, clipped, noisy, just switched on,
sending twice or out of order, in any units.  Whatever it answers, the answer has every
part that the request implies and nothing is outside the range that its meaning allows;
well-posed requests get numbers throughout.  Requests may be refused, never half answered.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl
from .c22 import FAULTS, sensor

ID = "C31"
COUNTS = {"quick": 1500, "thorough": 20000}
LIMIT = 90.0
RULE = (
    "one lossy gauge in any state of health (dead, constant, stuck, saturated, a few samples only, repeated or unordered "
    "times, tiny or huge units, a tide without noise), every option set, constituents that may be inseparable, "
    "predictions with missing times; non-trivial: an answer was examined"
)
STATES = "distinct (received pattern, state of the sensor, option set)"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["ocean (reference model and noise)", "gauge, telemetry and archive (event simulation)", "sensor faults"]
ASSUMPTIONS = ["requests may be refused; which are answered is the subject of C22 and C23"]
STATE = ["tide", "tide", "tide", "tide", "noisy", "noisy", "noiseless", "zero", "constant", "one value", "line", "spike"]


def generate(rng, tier, i):
    span = rng.choice([0.5, 3.0, 10.0, 16.0, 31.0, 31.0, 60.0])
    dt_h = rng.choice([0.5, 1, 1, 2])
    two = rng.random() < 0.5
    pool = None if rng.random() < 0.5 else st.COMMON
    k = rng.choice([1, 1, 2, 3, 5, 8])
    if rng.random() < 0.75:
        names = st.gen_names(rng, max(span, 3.0), dt_h, k, pool) or ["M2"]
    else:
        names = rng.sample([n for n in rm.NAMES if n != "M7"], k)
    ci = rng.choice(["none", "linear", "linear", "MC"])
    infer = None
    if rng.random() < 0.2:
        refs = rng.sample(names, min(len(names), rng.randint(1, 2)))
        free = [n for n in rm.NAMES if n not in names and n not in ("Z0", "M7")]
        inf = rng.sample(free, rng.randint(1, 3))
        m = 2 if two else 1
        infer = {
            "inferred_names": inf,
            "reference_names": [rng.choice(refs) for _ in inf],
            "amp_ratios": [round(rng.uniform(0.05, 0.5), 3) for _ in inf * m],
            "phase_offsets": [round(rng.uniform(-180, 180), 2) for _ in inf * m],
            "approximate": rng.random() < 0.3,
        }
        ci = "linear" if ci == "MC" else ci
    auto = not infer and dt_h <= 1 and rng.random() < 0.15
    order = [None, "PE", "frequency"] + (["SNR"] if ci != "none" else [])
    return {
        "start": float(rng.randint(640000, 780000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "truth": st.gen_truth(rng, ["M2", "K1"] if rng.random() < 0.5 else names, two, True),
        "state": rng.choice(STATE),
        "statev": rng.choice(STATE),
        "faults": rng.sample(FAULTS, rng.choice([0, 0, 1, 2])),
        "unit": rng.choice([1.0, 1.0, 1.0, 1000.0, 1e-3, 1e-30, 1e30, -1.0]),
        "noise": rng.choice([0.02, 0.3, 3.0]),
        "nseed": rng.randrange(1 << 30),
        "names": names,
        "auto": auto,
        "infer": infer,
        "lat": st.gen_lat(rng),
        "chan": st.gauge.gen_channel(rng, heavy=rng.random() < 0.2),
        "order": rng.choice(["sorted", "sorted", "sorted", "arrival", "reversed", "repeated", "few"]),
        "few": rng.randint(1, 12),
        "lostu": rng.choice([0, 0, 0.05, 0.5]),
        "lostv": rng.choice([0, 0, 0.05, 0.5]),
        "grid": rng.random() < 0.5,
        "cont": rng.choice(["arr", "arr", "list", "ma", "ser", "tuple"]),
        "epoch": rng.choice(["py", "py", "ml", "dt64", "ep:1992-03-01"]),
        "opts": {
            "nodal": rng.choice([True, True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": ci,
            "white": rng.random() < 0.5,
            "order_constit": "names" if not auto and not infer and rng.random() < 0.2 else rng.choice(order),
            "method": "robust" if rng.random() < 0.3 else "ols",
            "verbose": False,
        },
        "wf": rng.choice(["cauchy", "huber", "bisquare", "welsch", "fair", "andrews", "logistic", "talwar", "ols"]),
        "ask": {
            "n": rng.choice([0, 1, 2, 9]),
            "lost": rng.choice([0, 0, 0.3, 1]),
            "rep": rng.choice(["py", "pylist", "ml", "dt64", "ep:2000-02-29"]),
            "sel": rng.choice(["default", "none", "snr", "pe", "names", "no such"]),
            "far": rng.choice([0, 30.0, 5000.0]),
        },
    }


def water(sc, state, tide, g, ctx):
    n = len(tide)
    if state == "tide":
        x = tide + sc["noise"] * g.standard_normal(n)
    elif state == "noisy":
        x = sc["noise"] * g.standard_normal(n)
    elif state == "noiseless":
        x = tide.copy()
    elif state == "zero":
        x = np.zeros(n)
    elif state == "constant":
        x = np.full(n, 3.7)
    elif state == "one value":
        x = np.round(tide * 0.3)
    elif state == "line":
        x = np.linspace(-1, 1, n)
    else:
        x = np.zeros(n)
        x[int(g.integers(0, n))] = 5.0
    ctx.faults["sensor state: " + state] += 1
    return x


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"].copy()
    two, lat, o = sc["two"], sc["lat"], dict(sc["opts"])
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    n = len(t)
    U, V = rm.synth(t, t.mean(), sc["truth"], lat, True, "Greenwich")
    u = sensor(sc, t, water(sc, sc["state"], U, g, ctx), g, ctx) * sc["unit"]
    v = sensor(sc, t, water(sc, sc["statev"], V, g, ctx), g, ctx) * sc["unit"] if two else None
    mu, mv = ~rec | (g.random(n) < sc["lostu"]), ~rec | (g.random(n) < sc["lostv"])
    how = sc["order"]
    ix = np.arange(n)
    if how == "arrival":
        first = list(dict.fromkeys(sim["arrivals"]))
        ix = np.array(first + [k for k in range(n) if k not in set(first)], int)
    elif how == "reversed":
        ix = ix[::-1]
    elif how == "repeated":
        ix = np.sort(np.r_[ix, g.integers(0, n, n // 5)])
    elif how == "few":
        ix = np.sort(g.permutation(n)[: sc["few"]])
    if not sc["grid"]:
        ix = ix[rec[ix]]
    if len(ix) == 0:
        return
    t, u, mu, mv = t[ix], u[ix], mu[ix], mv[ix]
    miss = mu | mv if two else mu
    tt, ep = wl.rep_time(t, sc["epoch"])
    args = [tt, wl.rep_vals(u, mu, sc["cont"])]
    if two:
        args.append(wl.rep_vals(v[ix], mv, sc["cont"]))
    names = list(sc["names"])
    if o["order_constit"] == "names":
        o["order_constit"] = names[::-1]
    kw = dict(o, lat=lat, epoch=ep, constit="auto" if sc["auto"] else list(names))
    inf = sc["infer"]
    if inf:
        kw["infer"] = copy.deepcopy(inf)
    if o["method"] == "robust":
        kw["robust_kw"] = {"weight_function": sc["wf"]}
    np.random.seed(sc["nseed"] % (1 << 31))
    ctx.calls["solve"] += 1
    ctx.state(miss.tolist(), sc["state"], sorted(map(str, o.items())))
    with np.errstate(all="ignore"):
        try:
            c = utide.solve(*args, **kw)
        except Exception as e:
            ctx.log("refused", type(e).__name__)
            ctx.probes["requests refused"] += 1
            return
    ctx.nontrivial = True
    good = ~miss
    solid = wellposed(sc, t[good], u[good], v[ix][good] if two else None, c, t)
    examine(c, sc, o, t, good, solid, ctx)
    predict(utide, c, sc, o, t, solid, ctx)


def wellposed(sc, t, u, v, c, alltimes):
    """the water moves, enough samples of it came, and the basis is well conditioned"""
    o = sc["opts"]
    x = [u] if v is None else [u, v]
    if any(s not in ("tide", "noisy") for s in ([sc["state"]] + ([sc["statev"]] if v is not None else []))):
        return False
    if sc["order"] == "few" or any(np.ptp(y) == 0 for y in x) or "M7" in list(c["name"]):
        return False
    if any(f in ("stuck", "saturation", "quantised") for f in sc["faults"]) or sc["auto"]:
        return False
    B = rm.design(t, t.mean(), sc["names"], sc["lat"], o["nodal"], o["phase"], o["trend"], max(np.ptp(t), 1e-9))
    if B.shape[0] < 2 * B.shape[1] + 10:
        return False
    s = np.linalg.svd(B, compute_uv=False)
    return bool(s[0] / s[-1] < 200)


def examine(c, sc, o, t, good, solid, ctx):
    two = sc["two"]
    n = len(c["name"])
    ci = o["conf_int"] != "none"
    base = (["Lsmaj", "Lsmin", "theta"] if two else ["A"]) + ["g"]
    rows = base + ([b + "_ci" for b in base] if ci else [])
    rows += ["PE", "SNR"] if ci else ["PE"] if o["order_constit"] in (None, "PE") else []
    line = ["umean", "vmean"] if two else ["mean"]
    if o["trend"]:
        line += ["uslope", "vslope"] if two else ["slope"]
    for f in ["name", "weights", "aux", "nR", "nNR", "nI"] + rows + line:
        if f not in c:
            ctx.fail("incomplete", f"{f} missing")
    for f in ("A", "mean", "slope", "A_ci") if two else ("Lsmaj", "Lsmin", "theta", "umean", "vmean", "uslope", "vslope", "Lsmaj_ci"):
        if f in c:
            ctx.fail("incomplete", f"{f} in the answer for a {'vector' if two else 'scalar'}")
    if not o["trend"] and any(f in c for f in ("slope", "uslope", "vslope")):
        ctx.fail("incomplete", "slope in an answer without trend")
    if not ci and any(b + "_ci" in c for b in base):
        ctx.fail("incomplete", "intervals in an answer without intervals")
    for f in rows:
        x = c[f]
        if not isinstance(x, np.ndarray) or x.shape != (n,) or x.dtype.kind != "f":
            ctx.fail("shape", f"{f}: {type(x).__name__} {np.shape(x)} {getattr(x, 'dtype', '')} for {n} constituents")
    for f in line:
        if np.shape(c[f]) != () or np.iscomplexobj(c[f]):
            ctx.fail("shape", f"{f} is {c[f]!r}")
    names = [str(x) for x in c["name"]]
    inf = sc["infer"]
    want = set(sc["names"]) | (set(inf["inferred_names"]) | set(inf["reference_names"]) if inf else set())
    if len(set(names)) != n or (not sc["auto"] and set(names) != want):
        ctx.fail("constituents", f"{sorted(names)}, asked for {sorted(want)}")
    nI = len(inf["inferred_names"]) if inf else 0
    nR = len(set(inf["reference_names"])) if inf else 0
    if (c["nI"], c["nR"], c["nNR"]) != (nI, nR, n - nI - nR):
        ctx.fail("constituents", f"counts {c['nNR']} {c['nR']} {c['nI']} for {n} constituents, {nR} references, {nI} inferred")

    def inside(f, lo, hi, strict=False):
        x = np.asarray(c[f], float)
        with np.errstate(invalid="ignore"):
            bad = (x < lo) | (x > hi)
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            ctx.fail("range", f"{f} of {names[j] if x.shape == (n,) else 'sample %d' % j} is {x[j]!r}, outside {lo}..{hi}")

    inside("g", 0, 360)
    if two:
        inside("theta", 0, 180)
        inside("Lsmaj", 0, np.inf)
        if np.any(np.abs(c["Lsmin"]) > c["Lsmaj"] * (1 + 1e-12)):
            ctx.fail("range", f"minor axis longer than the major axis: {c['Lsmaj']} {c['Lsmin']}")
    else:
        inside("A", 0, np.inf)
    if ci:
        for b in base:
            inside(b + "_ci", 0, np.inf)
        inside("SNR", 0, np.inf)
    if "PE" in c:
        inside("PE", 0, 100 + 1e-9)
        if np.all(np.isfinite(c["PE"])) and n and abs(np.sum(c["PE"]) - 100) > 1e-6:
            ctx.fail("range", f"PE adds up to {np.sum(c['PE'])}")
    if np.shape(c["weights"]) != (int(good.sum()),):
        ctx.fail("shape", f"{np.shape(c['weights'])} weights for {int(good.sum())} valid samples")
    inside("weights", 0, 1)
    a = c["aux"]
    if not t.min() - 1e-6 <= a["reftime"] <= t.max() + 1e-6:
        ctx.fail("range", f"reference time {a['reftime']} not within {t.min()}..{t.max()}")
    if a["lat"] != sc["lat"] or bool(a["opt"]["twodim"]) != two:
        ctx.fail("incomplete", f"latitude {a['lat']} or dimension recorded wrongly")
    if np.shape(a["frq"]) != (n,) or np.shape(a["lind"]) != (n,):
        ctx.fail("shape", "frequencies or indices do not match the constituents")
    if o["method"] == "robust" and "rf" not in c:
        ctx.fail("incomplete", "no report of the robust fit")
    ctx.probes["answers examined"] += 1
    if not solid:
        return
    for f in rows + line:
        if not np.all(np.isfinite(c[f])):
            # no density in bands without free spectral lines or beyond the mean sampling; degenerate weights
            rate = good.sum() / (24 * np.ptp(t))
            f0 = np.asarray(c["aux"]["frq"])
            coarse = n > 4 or sc["span"] < 10 or np.max(f0) > 0.35 * rate or np.min(f0) * 24 * np.ptp(t) < 5
            if (f[-3:] == "_ci" or f == "SNR") and ((not o["white"] and coarse) or o["method"] == "robust"):
                ctx.probes["intervals without density"] += 1
                continue
            ctx.fail("not a number", f"{f} is {c[f]} in a well-posed analysis")
    ctx.probes["well-posed answers examined"] += 1


def predict(utide, c, sc, o, t, solid, ctx):
    a = sc["ask"]
    r = np.random.Generator(np.random.PCG64(sc["nseed"] + 1))
    tp = st.msround(t[0] - a["far"] + (np.ptp(t) + 2 * a["far"]) * r.random(a["n"]))
    lost = r.random(a["n"]) < a["lost"]
    tp[lost] = np.nan
    tt, ep = wl.rep_time(tp, a["rep"])
    names = [str(x) for x in c["name"]]
    kw = {
        "default": {},
        "none": {"min_SNR": 0},
        "snr": {"min_SNR": 3.0},
        "pe": {"min_SNR": 0, "min_PE": 5.0},
        "names": {"constit": names[::2]},
        "no such": {"constit": ["ALP1"] if "ALP1" not in names else []},
    }[a["sel"]]
    ctx.calls["reconstruct"] += 1
    with np.errstate(all="ignore"):
        try:
            out = utide.reconstruct(tt, c, epoch=ep, verbose=False, **kw)
        except Exception as e:
            if solid and a["n"]:
                ctx.fail("unexpected-exception", f"reconstruct: {type(e).__name__}: {e}")
            ctx.probes["requests refused"] += 1
            return
    fields = {"u", "v"} if sc["two"] else {"h"}
    rest = {"t_in", "t_mpl", "epoch", "constit", "min_SNR", "min_PE"}
    if set(out) != fields | rest:
        ctx.fail("prediction", f"holds {sorted(out)}")
    if out["t_in"] is not tt or out["epoch"] is not ep:
        ctx.fail("prediction", "does not name the times and the epoch it is for")
    for k, w in (("constit", None), ("min_SNR", 2), ("min_PE", 0)):
        if out[k] is not kw.get(k, w) and out[k] != kw.get(k, w):
            ctx.fail("prediction", f"{k} recorded as {out[k]}")
    for f in fields:
        x = out[f]
        if not isinstance(x, np.ndarray) or np.ma.isMA(x) or x.shape != (a["n"],) or x.dtype != np.float64:
            ctx.fail("prediction", f"{f}: {type(x).__name__} {np.shape(x)} for {a['n']} times")
        if not np.all(np.isnan(x[lost])):
            ctx.fail("prediction", f"{f} has values at missing times")
        if solid and not np.all(np.isfinite(x[~lost])):
            ctx.fail("prediction", f"{f} is not a number at valid times")
    ctx.log("predicted", a["n"], int(lost.sum()))
    ctx.probes["predictions examined"] += 1


def shrink(sc, rep):
    if sc["infer"]:
        yield {**copy.deepcopy(sc), "infer": None}
    for f in sc["faults"]:
        yield {**copy.deepcopy(sc), "faults": [x for x in sc["faults"] if x != f]}
    for k, simple in (("auto", False), ("lostu", 0), ("lostv", 0), ("cont", "arr"), ("grid", True), ("unit", 1.0), ("order", "sorted"),
                      ("epoch", "py"), ("state", "tide"), ("statev", "tide")):
        if sc[k] != simple:
            yield {**copy.deepcopy(sc), k: simple}
    used = set((sc["infer"] or {}).get("reference_names", []))
    if len(sc["names"]) > 1:
        for n in sc["names"]:
            if n not in used and n not in sc["truth"]["names"]:
                yield {**copy.deepcopy(sc), "names": [x for x in sc["names"] if x != n]}
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", False), ("phase", "raw"), ("order_constit", None), ("method", "ols"), ("white", True), ("conf_int", "none")):
        if sc["opts"][k] != simple and not (k == "conf_int" and sc["opts"]["order_constit"] == "SNR"):
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
