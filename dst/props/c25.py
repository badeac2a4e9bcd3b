"""
C25  Coloured intervals follow the noise around each constituent.

The sensor adds white noise and a burst of extra noise in one frequency band, to one
velocity component or both; samples get lost, late or are taken off schedule.  With
white=False the interval of every constituent must reflect the noise density in its own
band and component, as known from the simulation, and not that of other bands.
"""

import copy
import os

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C25"
COUNTS = {"quick": 260, "thorough": 4000}
LIMIT = 90.0
RULE = (
    "one tide, white noise plus extra noise in one band (factor 3-30 in density^0.5) in u, v or both, regular, gappy, "
    "irregular sampling, in order of time or of arrival, linear or Monte Carlo; non-trivial: extra noise was in one of the constituents' bands or components"
)
STATES = "distinct (received pattern, noisy band, component)"
REAL = ["utide (all modules, unmodified)", "numpy, scipy"]
STUB = ["ocean and noise (reference model)", "gauge, telemetry and archive (event simulation)", "random stream (seeded)"]
ASSUMPTIONS = [
    "the scale is that of the code: band-mean one-sided density times 1/record length is the sum of the variances "
    "of both quadratures (this is half of what 95% coverage would need; see DESIGN.md)",
    "judged within a factor, because a band has few spectral lines",
    "power lost between lines by missing samples may raise the floor of other bands",
]
# bands of the code's documentation, in cycles per hour, and a constituent in each
BANDS = [(0.03192, 0.04859), (0.07218, 0.08884), (0.11243, 0.12910), (0.15269, 0.16936), (0.23320, 0.25100)]
IN = [["K1", "O1", "Q1", "OO1"], ["M2", "S2", "N2"], ["M3", "MK3"], ["M4", "MS4"], ["M6", "2MS6"]]


NDRAW, LOW, HIGH = 7, 0.55, 1.6
HALF = "coloured-half-variance"


def generate(rng, tier, i):
    if i == 0:
        return {"probe": "white"}
    if rng.random() < 0.05:
        # bands crowded with constituents, whose own spectral lines are empty and must not count
        return {
            "crowd": True,
            "start": float(rng.randint(690000, 750000)) + rng.choice([0.0, 0.37]),
            "two": rng.random() < 0.5,
            "dt_h": rng.choice([0.5, 1]),
            "jitter": rng.choice([0, 0, 0.1, 0.3]),
            "lost": rng.choice([0, 0, 0.02]),
            "reverse": rng.random() < 0.3,
            "sigma": rng.choice([1e-4, 0.01, 0.02]),
            "scale": rng.choice([1.0, 1.0, 1e-3, 1e4]),
            "lat": round(rng.uniform(-70, 70), 2),
            "phase": rng.choice(["Greenwich", "linear_time", "raw"]),
            "nseed": rng.randrange(1 << 30),
        }
    span = rng.choice([31.0, 45.0, 60.0, 90.0])
    two = rng.random() < 0.55
    dt_h = rng.choice([0.25, 0.5, 1, 1, 1 / 3]) if span < 50 else 1
    ks = sorted(rng.sample(range(5), rng.randint(2, 4)))
    names = []
    for k in ks:
        pick = rng.sample(IN[k], rng.randint(1, 2))
        names += [n for n in pick if all(abs(st.F0[n] - st.F0[m]) * 24 * span > 1.3 for m in names)]
    tr = st.gen_truth(rng, names, two, True)
    if two:
        # axes along u and v, so that a component's noise shows in one axis
        tr["theta"] = [rng.choice([0.0, 90.0]) for _ in names]
        tr["Lsmin"] = [round(a * rng.choice([-1, 1]) * rng.uniform(0.2, 0.5), 4) for a in tr["Lsmaj"]]
    chan = st.gauge.gen_channel(rng)
    chan.update(outages=[], crashes=[], drop=rng.choice([0, 0, 0.01, 0.05]))
    return {
        "start": float(rng.randint(690000, 750000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "truth": tr,
        "bands": ks,
        "noisy": rng.choice([None, *range(5)]),
        "comp": rng.choice(["u", "v", "uv"]),
        "gain": rng.choice([3.0, 10.0, 30.0]),
        "sigma": rng.choice([0.001, 0.003]),
        "vfac": rng.choice([1.0, 1.0, 0.2, 5.0]),
        "lat": round(rng.uniform(-70, 70), 2),
        "chan": chan,
        "nseed": rng.randrange(1 << 30),
        "grid": rng.random() < 0.6,
        "scale": rng.choice([1.0, 1.0, 1e-3, 1e4]),
        "order": rng.choice(["time", "time", "arrival", "reversed", "shuffled"]),
        "opts": {
            "nodal": rng.choice([True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": rng.choice(["linear", "linear", "MC"]),
            "method": "ols",
            "verbose": False,
        },
    }


def band_noise(t, lo, hi, density, g):
    """Gaussian noise of one-sided density (per cph) between lo and hi, sampled at t (days)."""
    h = 24 * (t - t[0])
    df = 1 / (h[-1] * 3.3)
    f = np.arange(lo + df / 2, hi, df)
    a = np.sqrt(density * df) * g.standard_normal((2, len(f)))
    out = np.zeros(len(t))
    for k in range(len(f)):
        out += a[0, k] * np.cos(2 * np.pi * f[k] * h) + a[1, k] * np.sin(2 * np.pi * f[k] * h)
    return out


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    if sc.get("probe"):
        return probe_white(utide, ctx)
    if sc.get("crowd"):
        return crowd(sc, utide, ctx)
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    two, lat, o, tr = sc["two"], sc["lat"], sc["opts"], dict(sc["truth"])
    if not o["trend"]:
        for k in ("slope", "uslope", "vslope"):
            if k in tr:
                tr[k] = 0.0
    tref = 0.5 * (t[0] + t[-1])
    names = tr["names"]
    u, v = rm.synth(t, tref, tr, lat, o["nodal"], o["phase"])
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    sig = [sc["sigma"], sc["sigma"] * sc["vfac"]]
    fs = 1 / sc["dt_h"]
    S0 = [2 * s**2 / fs for s in sig]  # one-sided white density
    extra = [0.0, 0.0]
    for k, cn in enumerate("uv"):
        if sc["noisy"] is not None and cn in sc["comp"] and (two or k == 0):
            extra[k] = S0[k] * sc["gain"] ** 2
            ctx.faults[f"band noise in {cn}"] += 1
    irregular = bool(sc["chan"]["jitter"]) or (not sc["grid"] and not rec.all())
    loss = 1 - rec.mean()
    order = np.arange(len(t) if sc["grid"] else int(rec.sum()))
    if sc["order"] == "reversed":
        order = order[::-1]
    elif sc["order"] == "shuffled":
        order = np.random.Generator(np.random.PCG64(sc["nseed"] + 7)).permutation(order)
    elif sc["order"] == "arrival":
        slots = np.arange(len(t)) if sc["grid"] else np.flatnonzero(rec)
        at = {k: j for j, k in enumerate(dict.fromkeys(sim["arrivals"]))}
        order = np.array(sorted(order, key=lambda j: at.get(int(slots[j]), len(t))))
    if np.any(np.diff(order) < 0):
        ctx.faults["record not in order of time"] += 1
        irregular = irregular or sc["order"] != "reversed"
    ratios = {}
    for draw in range(NDRAW):
        a = [t]
        for k, y in enumerate([u, v][: 2 if two else 1]):
            y = y + sig[k] * g.standard_normal(len(t))
            if extra[k]:
                y = y + band_noise(t, *BANDS[sc["noisy"]], extra[k], g)
            a.append(y * sc["scale"])
        if sc["grid"]:
            for y in a[1:]:
                y[~rec] = np.nan
        else:
            a = [y[rec] for y in a]
        a = [y[order] for y in a]
        ctx.calls["solve"] += 1
        np.random.seed((sc["nseed"] + draw) % (1 << 31))
        try:
            c = utide.solve(*a, lat=lat, epoch="python", constit=names, white=False, **o)
        except Exception as e:
            ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")
        for j, nm in enumerate(map(str, c["name"])):
            i = names.index(nm)
            if two:
                got = [float(c["Lsmaj_ci"][j]), float(c["Lsmin_ci"][j])]
                if tr["theta"][i] != 0:
                    got = got[::-1]
            else:
                got = [float(c["A_ci"][j])]
            for k, x in enumerate(got):
                ratios.setdefault((nm, k), []).append(x)
    T = 24 * (t[-1] - t[0])
    ctx.log("solved", int(rec.sum()), len(names))
    ctx.state(rec.tolist(), sc["noisy"], sc["comp"])
    ctx.nontrivial = sc["noisy"] is not None
    for i, nm in enumerate(names):
        b = next(k for k, (lo, hi) in enumerate(BANDS) if lo <= st.F0[nm] <= hi)
        width = BANDS[sc["noisy"]][1] - BANDS[sc["noisy"]][0] if sc["noisy"] is not None else 0
        want, high = [], []
        for k in range(2 if two else 1):
            S = S0[k] + (extra[k] if sc["noisy"] == b else 0)
            want.append(1.96 * sc["scale"] * np.sqrt(S / T / 2))
            # missing or shifted samples spread the power of the noisy band over all
            spread = (loss + (sc["chan"]["jitter"] ** 2 + 0.06 if irregular else 0)) * extra[k] * width * 2 / fs
            high.append(1.96 * sc["scale"] * np.sqrt((S + 2 * spread) / T / 2))
        # intervals of small amplitudes and thin ellipses are not linear any more
        small = 0.2 * tr["Lsmaj"][i] if two else tr["A"][i]
        if small < 8 * max(high) / sc["scale"] or max(high) > 60 * min(want):
            ctx.probes["too noisy to judge"] += 1
            continue
        for k in range(len(want)):
            got = float(np.median(ratios[nm, k]))
            if os.environ.get("DST_RATIOS"):
                print("RATIO", round(got / want[k], 3), round(got / high[k], 3), nm, sc["noisy"] == b, irregular, round(loss, 2), o["conf_int"], sc["span"], two)
            ctx.probes["intervals compared"] += 1
            if not LOW * want[k] <= got <= HIGH * high[k]:
                ctx.fail(
                    "interval",
                    f"{nm} ({'uv'[k]} axis): median interval {got:.3g}, noise around it gives {want[k]:.3g} "
                    f"({'extra noise in its band' if sc['noisy'] == b else 'no extra noise in its band'})",
                )


CROWD = ["Q1", "O1", "NO1", "K1", "J1", "OO1", "N2", "M2", "S2", "ETA2", "L2", "MU2"]


def crowd(sc, utide, ctx):
    """white noise and half of the spectral lines taken by constituents"""
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    dt = sc["dt_h"] / 24
    t = st.msround(sc["start"] + np.arange(0, 31, dt))
    w = 1.96 * sc["sigma"] * np.sqrt(2 * sc["dt_h"] / (24 * 31) / 2)
    rs = []
    for _ in range(60):
        # the gauge's clock is off by a little and it notes so
        tt = t + dt * sc["jitter"] * g.uniform(-1, 1, len(t))
        lost = g.random(len(t)) < sc["lost"]
        a = [tt]
        for k in range(2 if sc["two"] else 1):
            y = sum((k + 2) * np.cos(2 * np.pi * st.F0[n] * 24 * (tt - t[0]) + i + 1.3 * k) for i, n in enumerate(CROWD))
            y = sc["scale"] * (y + sc["sigma"] * g.standard_normal(len(t)))
            y[lost] = np.nan
            a.append(y)
        if sc["reverse"]:
            a = [x[::-1] for x in a]
        ctx.calls["solve"] += 1
        try:
            c = utide.solve(*a, lat=sc["lat"], constit=CROWD, white=False, epoch="python", verbose=False, nodal=False, phase=sc["phase"])
        except Exception as e:
            ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")
        rs.append((c["Lsmaj_ci"] if sc["two"] else c["A_ci"]) / (w * sc["scale"]))
    ctx.faults["sampled off schedule"] += bool(sc["jitter"])
    r = float(np.median(rs))
    ctx.log("crowded", round(r, 6))
    ctx.probes["crowded bands"] += 1
    ctx.nontrivial = True
    ctx.state(sc["start"], sc["nseed"])
    if os.environ.get("DST_RATIOS"):
        print("CROWD", round(r, 3), sc)
    if not 0.79 < r < 1.15:
        ctx.fail("interval", f"bands crowded with {len(CROWD)} constituents: intervals are {r:.3f} times what the noise gives")


def probe_white(utide, ctx):
    """In white noise both kinds of interval should agree; the code's coloured ones are known not to."""
    t = 735000 + np.arange(0, 30, 1 / 24)
    g = np.random.Generator(np.random.PCG64(1))
    r = []
    for _ in range(40):
        h = np.cos(2 * np.pi * st.F0["M2"] * 24 * (t - t[0])) + 0.05 * g.standard_normal(len(t))
        ci = {}
        for white in (True, False):
            ctx.calls["solve"] += 1
            c = utide.solve(t, h, lat=45.0, constit=["M2", "K1"], white=white, epoch="python", verbose=False)
            ci[white] = c["A_ci"]
        r.append(ci[False] / ci[True])
    r = float(np.mean(r))
    ctx.log("white", round(r, 6))
    if 0.85 < r < 1.1:
        return
    if 0.6 < r < 0.75:
        ctx.fail("coloured-scale", f"in white noise coloured intervals are {r:.3f} times the white ones", signature=HALF)
    ctx.fail("interval", f"in white noise coloured intervals are {r:.3f} times the white ones")


def shrink(sc, rep):
    if "truth" not in sc:
        return
    for k, simple in (("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", False), ("phase", "raw"), ("conf_int", "linear")):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
    for k, simple in (("noisy", None), ("order", "time"), ("scale", 1.0), ("vfac", 1.0), ("grid", True), ("comp", "uv")):
        if sc[k] != simple:
            yield {**copy.deepcopy(sc), k: simple}
