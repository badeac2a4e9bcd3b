"""
C22  The fit is the best fit to what was received, whatever that is.

The gauge sends arbitrary values: noise, steps, a sensor that sticks, drifts, saturates or
jumps its datum, a tide under it or not, and loses, delays and duplicates messages.  The
constants, mean and trend must be those of the weighted least-squares projection of the
received values on the harmonic basis, computed independently by the reference model; a
continuous run of the archive as it fills must give that at each step.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl
from .c10 import infer_design

ID = "C22"
COUNTS = {"quick": 500, "thorough": 8000}
LIMIT = 90.0
RULE = (
    "one lossy gauge with up to 3 sensor faults (step, stuck, drift, saturation, spikes, quantisation), an "
    "ocean that need not be a tide, every option set, the archive solved 1-3 times while it "
    "fills; non-trivial: values were lost or the sensor failed, and the problem is well conditioned"
)
STATES = "distinct (received pattern, sensor faults)"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["ocean (reference model and noise)", "gauge, telemetry and archive (event simulation)", "sensor faults"]
ASSUMPTIONS = [
    "compared where the condition number of the basis as sampled is below 10000",
    "M7 with Greenwich phases excluded (known finding of C10)",
]
FAULTS = ["step", "stuck", "drift", "saturation", "spikes", "quantised", "sign"]


def generate(rng, tier, i):
    span = rng.choice([3.0, 10.0, 16.0, 31.0, 31.0, 60.0, 185.0])
    dt_h = rng.choice([0.5, 1, 1, 2] if span < 61 else [2, 3])
    two = rng.random() < 0.45
    cap = {3.0: 3, 10.0: 4, 16.0: 6, 31.0: 10, 60.0: 14, 185.0: 16}[span]
    names = st.gen_names(rng, span, dt_h, rng.randint(1, cap), None if rng.random() < 0.6 else st.COMMON)
    if not names:
        names = ["M2"]
    if rng.random() < 0.45:
        # constituents the record hardly separates
        n, hi = rng.choice(names), rng.choice([0.1, 0.3, 0.6])
        near = [
            m
            for m in rm.NAMES
            if m not in names and m not in ("Z0", "M7") and 0.02 <= abs(st.F0[m] - st.F0[n]) * span * 24 <= hi
        ]
        names += rng.sample(near, min(len(near), rng.choice([1, 1, 2, 2, 3])))
    infer = None
    if rng.random() < 0.25:
        refs = rng.sample(names, min(len(names), rng.randint(1, 2)))
        free = [n for n in rm.NAMES if n not in names and n not in ("Z0", "M7")]
        inf = rng.sample(free, rng.randint(1, 3))
        m = 2 if two else 1
        infer = {
            "inferred_names": inf,
            "reference_names": [rng.choice(refs) for _ in inf],
            "amp_ratios": [round(rng.uniform(0.05, 0.5), 3) for _ in inf * m],
            "phase_offsets": [round(rng.uniform(-180, 180), 2) for _ in inf * m],
        }
    return {
        "start": float(rng.randint(660000, 765000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "truth": st.gen_truth(rng, names, two, True),
        "tide": rng.random() < 0.7,
        "names": names,
        "infer": infer,
        "lat": st.gen_lat(rng),
        "chan": st.gauge.gen_channel(rng, heavy=rng.random() < 0.3),
        "faults": rng.sample(FAULTS, rng.choice([0, 1, 1, 2, 3])),
        "noise": rng.choice([0.0, 0.1, 1.0, 30.0]),
        "datum": rng.choice([0, 0, 0, 100.0, -1e4]),
        "nseed": rng.randrange(1 << 30),
        "steps": sorted(rng.sample([0.4, 0.6, 0.8, 1.0], rng.choice([1, 1, 2, 3]))),
        "epoch": rng.choice(st.EPOCHS),
        "cont": rng.choice(["arr", "arr", "list", "ma", "ser", "int32" if not two else "arr"]),
        "grid": rng.random() < 0.5,
        "opts": {
            "nodal": rng.choice([True, True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": rng.choice(["none", "none", "linear", "MC" if not infer else "linear"]),
            "white": rng.random() < 0.6,
            "order_constit": rng.choice([None, "PE", "frequency"]),
            "method": "ols",
            "verbose": False,
        },
    }


def sensor(sc, t, x, g, ctx):
    n = len(x)
    for f in sc["faults"]:
        a = int(g.integers(0, n - 1))
        b = min(n, a + 1 + int(g.integers(1, n)))
        if f == "step":
            x[a:] += 5 * g.standard_normal()
        elif f == "stuck":
            x[a:b] = x[a]
        elif f == "drift":
            x += 3 * ((t - t[0]) / (t[-1] - t[0])) ** 2
        elif f == "saturation":
            x[:] = np.clip(x, np.percentile(x, 10), np.percentile(x, 85))
        elif f == "spikes":
            k = g.integers(0, n, 1 + n // 30)
            x[k] += 50 * g.standard_normal(len(k))
        elif f == "quantised":
            x[:] = np.round(x)
        elif f == "sign":
            x[a:b] *= -1
        ctx.faults[f"sensor fault: {f}"] += 1
    return x


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    sim = st.run_gauge(sc, ctx)
    T, rec = sim["t"], sim["received"]
    two, lat, o = sc["two"], sc["lat"], sc["opts"]
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    if sc["tide"]:
        U, V = rm.synth(T, T.mean(), sc["truth"], lat, True, "Greenwich")
    else:
        U, V = np.zeros(len(T)), np.zeros(len(T))
    U = sensor(sc, T, U + sc["noise"] * g.standard_normal(len(T)), g, ctx) + sc["datum"]
    if two:
        V = sensor(sc, T, V + sc["noise"] * g.standard_normal(len(T)), g, ctx) - sc["datum"]
    elif sc["cont"] == "int32":
        U = np.round(U * 100)
    for part in sc["steps"]:
        n = max(8, int(part * len(T)))
        one(sc, ctx, utide, T[:n], U[:n], V[:n] if two else None, rec[:n])


def one(sc, ctx, utide, t, u, v, rec):
    two, lat, o = sc["two"], sc["lat"], sc["opts"]
    rec = rec.copy()
    rec[0] = rec[-1] = True
    miss = ~rec
    if not sc["grid"]:
        t, u, v, miss = t[rec], u[rec], v[rec] if two else None, np.zeros(int(rec.sum()), bool)
    good = ~miss
    tref = 0.5 * (t[0] + t[-1])
    lor = t[-1] - t[0]
    inf = sc["infer"]
    names = list(sc["names"])
    B = rm.design(t[good], tref, names, lat, o["nodal"], o["phase"], o["trend"], lor)
    if inf:
        B = infer_design(B, t[good], tref, names, sc, lat)
    if B.shape[0] < B.shape[1] + 4:
        return
    s = np.linalg.svd(B, compute_uv=False)
    cond = s[0] / s[-1]
    if not cond < 1e4:
        ctx.probes["badly conditioned sampling skipped"] += 1
        return
    x = u[good] + (1j * v[good] if two else 0)
    m = np.linalg.solve(B.conj().T @ B, B.conj().T @ x)
    m = m + np.linalg.solve(B.conj().T @ B, B.conj().T @ (x - B @ m))
    k = len(names)
    tt, ep = wl.rep_time(t, sc["epoch"])
    if sc["cont"] == "int32" and not miss.any():
        uu, vv = u.astype(np.int32), None
    else:
        kind = "arr" if sc["cont"] == "int32" else sc["cont"]
        uu, vv = wl.rep_vals(u, miss, kind), wl.rep_vals(v, miss, kind)
    kw = dict(o, constit=names[::-1], lat=lat, epoch=ep)
    if inf:
        kw["infer"] = copy.deepcopy(inf)
    ctx.calls["solve"] += 1
    np.random.seed(sc["nseed"] % (1 << 31))
    if o["conf_int"] == "MC":
        # the coloured estimate needs free spectral lines; MC raises without them
        kw["white"] = True
    if o["conf_int"] == "MC" and (two or np.ptp(x.real) == 0):
        kw["conf_int"] = "linear"
    try:
        coef = utide.solve(tt, uu, vv, **kw) if two else utide.solve(tt, uu, **kw)
    except Exception as e:
        ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")
    ctx.log("fit", len(x), k, float(f"{cond:.3g}"))
    ctx.state(rec.tolist(), sc["faults"])
    ctx.nontrivial = ctx.nontrivial or bool(miss.any() or sc["faults"] or not rec.all())
    size = float(np.max(np.abs(x))) + 1e-9
    # a basis that differs by rounding of the times (some 1e-9): its effect on the solution
    big = max(size, float(np.abs(m).max()))
    rms = float(np.sqrt(np.mean(np.abs(x - B @ m) ** 2)))
    lim = 3e-9 * (cond * big + cond**2 * rms) + 1e-8 * big
    p, q = st.phasors(coef, names, two)
    wp, wq = m[:k], m[k : 2 * k]
    if not two:
        # one-dimensional: A exp(-ig) = 2 ap, real part of both halves
        wp, wq = wp + wq.conj(), wp.conj() + wq
    e = np.maximum(np.abs(p - wp), np.abs(q - wq))
    if not np.all(e <= lim):
        j = int(np.nanargmax(e)) if np.isfinite(e).any() else 0
        ctx.fail(
            "projection",
            f"{names[j]}: phasors {p[j]:.6g} {q[j]:.6g}, best fit {wp[j]:.6g} {wq[j]:.6g} (allowed {lim:.2g})",
        )
    line = np.array([t[0], tref, t[-1]])
    x0 = coef["aux"]["reftime"]
    for nm, sl, f in (("umean", "uslope", np.real), ("vmean", "vslope", np.imag)) if two else (("mean", "slope", np.real),):
        got = coef[nm] + (coef[sl] * (line - x0) if o["trend"] else 0.0)
        want = f(m[2 * k]) + (f(m[2 * k + 1]) * (line - tref) / lor if o["trend"] else 0.0)
        if not np.all(np.abs(got - want) <= 3 * lim):
            ctx.fail("projection", f"line {got}, best fit {want} (allowed {3 * lim:.2g})")
    # no other member of the model fits better: the residual carries nothing of the basis
    ctx.calls["reconstruct"] += 1
    tt, ep = wl.rep_time(t[good], sc["epoch"])
    out = utide.reconstruct(tt, coef, epoch=ep, verbose=False, min_SNR=0)
    r = x - (out["u"] + 1j * out["v"] if two else out["h"])
    best = x - (B @ m if two else (B @ m).real)
    if not np.all(np.abs(r - best) <= 20 * k * lim):
        ctx.fail("residual", f"residual differs from that of the best fit by {np.abs(r - best).max():.3g}")
    ctx.probes["fits compared"] += 1


def shrink(sc, rep):
    if sc["infer"]:
        yield {**copy.deepcopy(sc), "infer": None}
    if len(sc["steps"]) > 1:
        for s in sc["steps"]:
            yield {**copy.deepcopy(sc), "steps": [s]}
    for f in sc["faults"]:
        yield {**copy.deepcopy(sc), "faults": [x for x in sc["faults"] if x != f]}
    used = set((sc["infer"] or {}).get("reference_names", []))
    if len(sc["names"]) > 1:
        for n in sc["names"]:
            if n not in used:
                yield {**copy.deepcopy(sc), "names": [x for x in sc["names"] if x != n]}
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", False), ("phase", "raw"), ("conf_int", "none"), ("order_constit", None)):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
    for k, simple in (("epoch", "py"), ("cont", "arr"), ("grid", False), ("tide", False), ("datum", 0), ("noise", 0.1)):
        if sc[k] != simple:
            yield {**copy.deepcopy(sc), k: simple}
