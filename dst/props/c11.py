"""
C11  Undetected outliers do not decide robust estimates.

The gauge of C10 also corrupts a few percent of the samples without anyone noticing:
isolated spikes, one-sided spikes, a burst, a sensor stuck at one value, in one velocity
component or both, of any magnitude.  The robust solution must stay as close to the truth
as the good samples allow, and the weights must point at the corrupted samples.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C11"
COUNTS = {"quick": 1300, "thorough": 30000}
LIMIT = 90.0
RULE = (
    "one known ocean, one lossy gauge that corrupts 0-6% of the delivered samples by 2 to "
    "1e6 times the amplitude scale, one robust weight function; non-trivial: at least one "
    "sample was corrupted by more than 10 noise standard deviations"
)
STATES = "distinct (received, corrupted) patterns"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["ocean (reference model)", "gauge, telemetry and archive (event simulation)", "corruption"]
ASSUMPTIONS = [
    "first and last delivered sample are good",
]
ALL = ["cauchy", "fair", "huber", "logistic"]
HARD = ["andrews", "bisquare", "talwar", "welsch"]


def generate(rng, tier, i):
    span = rng.choice([16.0, 31.0, 31.0, 60.0])
    dt_h = rng.choice([0.5, 1, 1]) if span < 40 else 1
    two = rng.random() < 0.4
    names = st.gen_names(rng, span, dt_h, rng.randint(2, 5), st.COMMON if rng.random() < 0.6 else None)
    wf = rng.choice(ALL + HARD + ["default", "default"])
    chan = st.gauge.gen_channel(rng)
    chan["drop"] = min(chan["drop"], 0.1)
    trend = rng.random() < 0.7
    truth = st.gen_truth(rng, names, two, trend)
    if rng.random() < 0.3:
        for k in ("mean", "umean"):
            if k in truth:
                truth[k] += 500.0
    return {
        "start": float(rng.randint(700000, 745000)),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "truth": truth,
        "lat": round(rng.uniform(-70, 70), 2),
        "chan": chan,
        "sigma": rng.choice([0.02, 0.05, 0.1]),
        "nseed": rng.randrange(1 << 30),
        "frac": rng.choice([0, 0.01, 0.03, 0.06, 0.06]),
        "pattern": rng.choice(["rand", "one", "burst", "stuck"]),
        "mag": round(10 ** rng.uniform(0.0, 6.0), 3),
        "comp": rng.choice(["u", "v", "uv"]),
        "grid": rng.random() < 0.5,
        "wf": wf,
        "opts": {
            "nodal": rng.choice([True, True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "linear_time", "raw"]),
            "trend": trend,
            "conf_int": rng.choice(["none", "linear"]),
            "order_constit": rng.choice(["PE", "frequency"]),
        },
    }


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    good = np.flatnonzero(rec)
    if len(good) < 0.6 * len(t):
        return
    tr, o = sc["truth"], sc["opts"]
    names = tr["names"]
    tg = t[good]
    n = len(good)
    tref = 0.5 * (tg[0] + tg[-1])
    lor = tg[-1] - tg[0]
    B = rm.design(tg, tref, names, sc["lat"], o["nodal"], o["phase"], o["trend"], lor)
    s = np.linalg.svd(B, compute_uv=False)
    if not s[0] / s[-1] < 30:
        ctx.probes["badly conditioned sampling skipped"] += 1
        return
    u, v = rm.synth(t, tref, tr, sc["lat"], o["nodal"], o["phase"])
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    sig = sc["sigma"]
    u = u + sig * g.standard_normal(len(t))
    if v is not None:
        v = v + sig * g.standard_normal(len(t))
    # undetected corruption of delivered samples
    m = int(sc["frac"] * n)
    size = sc["mag"] * g.uniform(0.7, 1.0, m)
    if sc["pattern"] == "burst":
        a = int(g.integers(1, n - m - 1))
        k = np.arange(a, a + m)
    else:
        k = 1 + g.choice(n - 2, m, replace=False)
    hit = good[k]
    if sc["pattern"] == "rand":
        size = size * g.choice([-1.0, 1.0], m)
    comp = sc["comp"] if v is not None else "u"
    away = np.zeros(len(t))
    if comp != "v":
        u0 = u.copy()
        if sc["pattern"] == "stuck":
            u[hit] = tr.get("mean", tr.get("umean")) + sc["mag"]
        else:
            u[hit] += size
        away = np.abs(u - u0)
    if comp == "uv":
        v[hit] -= size
    elif comp == "v":
        v0 = v.copy()
        if sc["pattern"] == "stuck":
            v[hit] = tr["vmean"] + sc["mag"]
        else:
            v[hit] += size
        away = np.abs(v - v0)
    if m and v is not None:
        ctx.probes[f"corrupted component {comp}"] += 1
    ctx.faults[f"value corrupted undetected ({sc['pattern']})"] += m
    kw = dict(
        o,
        method="robust",
        constit=list(names),
        lat=sc["lat"],
        epoch="python",
        verbose=False,
        white=True,
    )
    if sc["wf"] != "default":
        kw["robust_kw"] = {"weight_function": sc["wf"]}
    if sc["grid"]:
        u[~rec] = np.nan
        args = [t, u] + ([v] if v is not None else [])
    else:
        args = [x[good] for x in ([t, u] + ([v] if v is not None else []))]
    ctx.calls["solve"] += 1
    try:
        coef = utide.solve(*args, **kw)
    except Exception as e:
        ctx.fail("unexpected-exception", f"{sc['wf']}: {type(e).__name__}: {e}")
    bad = away[good] > 50 * sig
    ctx.nontrivial = bool((away > 10 * sig).any())
    ctx.log(sc["wf"], n, m, sc["pattern"])
    ctx.state(rec.tolist(), hit.tolist())
    p, q = st.phasors(coef, names, v is not None)
    tp, tq = st.phasors(tr, names, v is not None)
    cov = np.sqrt(np.diag(np.linalg.inv(B.conj().T @ B)).real)
    lim = 13 * sig * max(float(cov[: 2 * len(names)].max()), 1 / np.sqrt(n))
    if v is not None:
        lim *= 1.4
    e = np.maximum(np.abs(p - tp), np.abs(q - tq))
    if not np.all(e <= lim):
        j = int(np.nanargmax(e)) if np.isfinite(e).any() else 0
        ctx.fail(
            "outliers-decide",
            f"{sc['wf']}: {names[j]} is off by {e[j]:.3g}, allowed {lim:.3g} "
            f"({m} of {n} samples corrupted by up to {sc['mag']:.3g}, noise {sig})",
        )
    x0 = coef["aux"]["reftime"]
    for mn, sl in ((("mean", "slope"),) if v is None else (("umean", "uslope"), ("vmean", "vslope"))):
        x = np.array([tg[0], tg[-1]])
        line = coef[mn] + (coef[sl] * (x - x0) if o["trend"] else 0)
        true = tr[mn] + tr[sl] * (x - tref)
        if not np.all(np.abs(line - true) <= 3.5 * lim):
            ctx.fail("outliers-decide", f"{sc['wf']}: mean/trend line {line}, truth {true}, allowed {3.5 * lim:.3g}")
    w = np.asarray(coef["weights"])
    if w.shape != (n,):
        ctx.fail("weights", f"{w.shape} weights for {n} good samples")
    if (w < 0).any() or (w > 1 + 1e-9).any() or not np.isfinite(w).all():
        ctx.fail("weights", f"weights outside 0..1: {w.min()} {w.max()}")
    if bad.any() and not w[bad].max() < 0.2:
        ctx.fail("weights", f"{sc['wf']}: a sample off by {away[good][bad].min():.3g} or more has weight {w[bad].max():.3g}")
    w_good = float(np.median(w[away[good] == 0]))
    if bad.any() and not w[bad].max() < 0.5 * w_good:
        ctx.fail(
            "weights",
            f"{sc['wf']}: corrupted samples have weight up to {w[bad].max():.3g}, good ones {w_good:.3g}",
        )
    if not bad.any() and m == 0 and not w_good > 0.5:
        ctx.fail("weights", f"{sc['wf']}: good samples have median weight {w_good:.3g}, none is corrupted")


def shrink(sc, rep):
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", False), ("phase", "raw"), ("conf_int", "none"), ("order_constit", "PE")):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
    for k, simple in (("pattern", "rand"), ("frac", 0.01), ("frac", 0), ("grid", False), ("comp", "u")):
        if sc[k] != simple:
            c = copy.deepcopy(sc)
            c[k] = simple
            yield c
    tr = sc["truth"]
    if len(tr["names"]) > 1:
        c = copy.deepcopy(sc)
        for x in ("names", "A", "g", "Lsmaj", "Lsmin", "theta"):
            if x in c["truth"]:
                c["truth"][x] = c["truth"][x][:1]
        yield c
