"""
C07  Monte Carlo intervals agree with the linearised ones, whatever the random stream.

For well-determined constituents both methods estimate the same uncertainty.  Each run
solves one record linearised and under many states of the random stream; the median over
streams of the interval ratio must be near one and no stream may give a wild interval.
Phases near 0/360 and orientations near 0/180 are generated on purpose.
"""

import copy

import numpy as np

from .. import workload as wl
from ..core import rng_for

ID = "C07"
COUNTS = {"quick": 300, "thorough": 5000}
LIMIT = 90.0
RULE = (
    "a noisy record (1-D or 2-D, gaps, jitter, white or coloured estimate, every nodal "
    "and phase mode), phases and orientations biased to the wrap-around points, solved "
    "linearised and with 9 random streams; non-trivial: at least one constituent was "
    "well determined (interval small against its amplitude and ellipse not degenerate)"
)
STATES = "distinct (1-D/2-D, white, gaps, wrap case, option) combinations"
REAL = ["utide (all modules, unmodified)", "numpy random generator"]
STUB = ["state of the random stream", "tide gauge (synthetic record with gaps)"]
ASSUMPTIONS = [
    "noise of u and v independent; robust only in 1-D; compared only where the linearisation is valid: "
    "interval below 1/5 of amplitude, of semi-minor axis and of the axis difference"
]
NSTREAM = 9
TIGHT = (0.72, 1.4)  # median over streams
LOOSE = (0.45, 2.0)  # the same, 2-D with a coloured (estimated) cross-spectrum
ONE = (0.35, 2.6)  # any single stream


def generate(rng, tier, i):
    span = rng.choice([16.0, 20.0, 30.0])
    two = rng.random() < 0.6
    names = rng.sample(wl.names_for(span), rng.randint(1, 3))
    wrap = rng.random() < 0.6
    truth = []
    for nm in names:
        A = round(rng.uniform(0.5, 2.0), 3)
        g = rng.choice([0.0, 359.7, 0.4, 180.2, 89.9]) if wrap else round(rng.uniform(0, 360), 2)
        th = rng.choice([0.0, 179.8, 0.3, 90.1, 0.05]) if wrap else round(rng.uniform(0, 180), 2)
        truth.append(
            {
                "name": nm,
                "A": A,
                "r": rng.choice([-1, 1]) * round(rng.uniform(0.25, 0.6), 3),
                "g": g,
                "th": th,
            },
        )
    sc = {
        "start": float(rng.randint(725000, 740000)),
        "span": span,
        "dt_h": rng.choice([1, 1, 2]) if span > 15 else 1,
        "two": two,
        "truth": truth,
        "wrap": wrap,
        "sigma": rng.choice([0.02, 0.05, 0.1]),
        "nseed": rng.randrange(1 << 30),
        "jitter": rng.random() < 0.3,
        "loss": rng.choice([0.0, 0.0, 0.05, 0.15]),
        "lat": round(rng.uniform(-70, 70), 1),
        "opts": {
            "white": rng.random() < 0.4,
            "trend": rng.random() < 0.8,
            "nodal": rng.choice([True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "linear_time", "raw"]),
            "order_constit": rng.choice(["PE", "frequency"]),
        },
        "streams": [rng.randrange(1 << 31) for _ in range(NSTREAM)],
    }
    if two and not sc["opts"]["white"]:
        # the cross-spectrum of a short record is chance, and only MC uses it
        sc["span"] = rng.choice([45.0, 60.0])
        sc["dt_h"] = 2
    if sc["dt_h"] == 2:
        # with gaps the spectrum ends at the mean Nyquist frequency
        for x in sc["truth"]:
            if wl.FREQ[x["name"]] > 0.17:
                x["name"] = "M2"
        seen = set()
        sc["truth"] = [x for x in sc["truth"] if not (x["name"] in seen or seen.add(x["name"]))]
    if not two and rng.random() < 0.2:
        sc["opts"]["method"] = "robust"
    return sc


def series(sc):
    from .. import refmodel as rm

    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    dt = sc["dt_h"] / 24
    n = int(sc["span"] / dt) + 1
    t = sc["start"] + dt * np.arange(n)
    if sc["jitter"]:
        j = g.uniform(-0.2, 0.2, n) * dt
        j[0] = j[-1] = 0
        t = t + j
    keep = g.random(n) >= sc["loss"]
    keep[0] = keep[-1] = True
    noise = sc["sigma"] * g.standard_normal((2, n))
    tref = 0.5 * (t[0] + t[-1])
    tr = sc["truth"]
    names = [x["name"] for x in tr]
    if sc["two"]:
        truth = {
            "names": names,
            "Lsmaj": [x["A"] for x in tr],
            "Lsmin": [x["A"] * x["r"] for x in tr],
            "theta": [x["th"] for x in tr],
            "g": [x["g"] for x in tr],
            "umean": 0.1,
            "vmean": -0.2,
            "uslope": 0.0,
            "vslope": 0.0,
        }
    else:
        truth = {
            "names": names,
            "A": [x["A"] for x in tr],
            "g": [x["g"] for x in tr],
            "mean": 0.3,
            "slope": 0.0,
        }
    u, v = rm.synth(
        t,
        tref,
        truth,
        sc["lat"],
        sc["opts"]["nodal"],
        sc["opts"]["phase"],
    )
    u = u + noise[0]
    if v is not None:
        v = v + noise[1]
    lost = ~keep
    u[lost] = np.nan
    if v is not None:
        v[lost] = np.nan
    return t, u, v, names, int(lost.sum())


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    t, u, v, names, lost = series(sc)
    kw = dict(sc["opts"], lat=sc["lat"], constit=names, epoch="python", verbose=False)
    ctx.sim_days += float(t[-1] - t[0])
    ctx.faults["sample lost"] += lost

    def call(ci):
        ctx.calls["solve " + ci] += 1
        args = (t, u) if v is None else (t, u, v)
        try:
            c = utide.solve(*args, conf_int=ci, **kw)
        except Exception as e:
            ctx.fail("unexpected-exception", f"conf_int={ci}: {type(e).__name__}: {e}")
        ix = [list(c["name"]).index(n) for n in names]
        return {k: np.asarray(c[k])[ix] for k in c if k.endswith("_ci") or k in (
            "A", "Lsmaj", "Lsmin")}

    lin = call("linear")
    mcs = []
    for s in sc["streams"]:
        np.random.seed(s)
        mcs.append(call("MC"))
    ctx.faults["random stream drawn"] += len(mcs)
    if sc["two"]:
        scale = np.minimum(np.abs(lin["Lsmin"]), lin["Lsmaj"] - np.abs(lin["Lsmin"]))
        ci = np.maximum(lin["Lsmaj_ci"], lin["Lsmin_ci"])
    else:
        scale, ci = lin["A"], lin["A_ci"]
    well = ci < scale / 5
    ctx.nontrivial = bool(well.any())
    ctx.log("well", int(well.sum()), len(names), lost)
    ctx.state(sc["two"], sc["wrap"], lost > 0, sorted(sc["opts"].items(), key=str))
    ctx.probes["constituent compared"] += int(well.sum())
    ctx.probes["phase or orientation at the wrap-around"] += bool(sc["wrap"])
    keys = [k for k in lin if k.endswith("_ci")]
    for k in keys:
        r = np.array([m[k] / lin[k] for m in mcs])
        for j, nm in enumerate(names):
            if not well[j]:
                continue
            rj = r[:, j]
            if not np.isfinite(rj).all():
                ctx.fail("ratio", f"{k} of {nm}: ratios {rj}")
            med = float(np.median(rj))
            lo, hi = LOOSE if sc["two"] and not sc["opts"]["white"] else TIGHT
            if not lo <= med <= hi:
                ctx.fail(
                    "ratio",
                    f"{k} of {nm}: Monte Carlo / linearised has median {med:.3f} over "
                    f"{len(rj)} streams (min {rj.min():.2f}, max {rj.max():.2f})",
                    signature=f"{k}",
                )
            if rj.min() < ONE[0] or rj.max() > ONE[1]:
                ctx.fail(
                    "wild-interval",
                    f"{k} of {nm}: one stream gives {rj.min():.2f}..{rj.max():.2f} of the "
                    "linearised interval",
                )
            if __import__("os").environ.get("DST_RATIOS"):
                print(k, f"{med:.3f} {rj.min():.3f} {rj.max():.3f}", sc["two"], sc["opts"]["white"], sc["opts"].get("method"), flush=True)


def shrink(sc, rep):
    if len(sc["truth"]) > 1:
        for i in range(len(sc["truth"])):
            c = copy.deepcopy(sc)
            del c["truth"][i]
            yield c
    for k, simple in (("jitter", False), ("loss", 0.0), ("lat", 45.0)):
        if sc[k] != simple:
            c = copy.deepcopy(sc)
            c[k] = simple
            yield c
    for k, simple in (("trend", True), ("nodal", False), ("phase", "raw"), ("white", True)):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
    if "method" in sc["opts"]:
        c = copy.deepcopy(sc)
        del c["opts"]["method"]
        yield c


_ = rng_for
