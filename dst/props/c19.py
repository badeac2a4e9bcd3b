"""
C19  The analysis commutes with a change of units, datum, axes or gauge.

Several gauges watch the same water through the same losses, but write it down in other
units, with another sign, about another datum, on rotated, swapped or mirrored axes, or
after another gauge's record was added or a long time later.  Their constants must be the
same up to exactly that change, whatever the values are.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C19"
COUNTS = {"quick": 420, "thorough": 8000}
LIMIT = 90.0
RULE = (
    "one lossy gauge and 2-4 replicas of it that write the same water in other units, datum or axes, as a sum of "
    "two records, or at another epoch; every option set; non-trivial: a change beyond the identity was compared"
)
STATES = "distinct (received pattern, kinds of change, option set)"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["ocean (reference model and noise)", "gauge, telemetry and archive (event simulation)"]
ASSUMPTIONS = [
    "intervals compared under scaling, datum change and quarter turns only: the linearised "
    "intervals of a general turn neglect correlations",
    "superposition and shifts in time for ordinary least squares",
]


def generate(rng, tier, i):
    span = rng.choice([10.0, 16.0, 31.0, 31.0, 60.0, 120.0])
    dt_h = rng.choice([0.5, 1, 1, 2] if span < 61 else [2, 3])
    two = rng.random() < 0.6
    cap = {10.0: 3, 16.0: 5, 31.0: 8, 60.0: 10, 120.0: 12}[span]
    names = st.gen_names(rng, span, dt_h, rng.randint(1, cap), None if rng.random() < 0.5 else st.COMMON) or ["M2"]
    ci = rng.choice(["none", "linear", "linear", "linear"])
    infer = None
    if rng.random() < 0.2:
        refs = rng.sample(names, min(len(names), rng.randint(1, 2)))
        free = [n for n in rm.NAMES if n not in names and n not in ("Z0", "M7")]
        inf = rng.sample(free, rng.randint(1, 3))
        m = 2 if two else 1
        infer = {
            "inferred_names": inf,
            "reference_names": [rng.choice(refs) for _ in inf],
            "amp_ratios": [round(rng.uniform(0.05, 0.5), 3) for _ in inf * m],
            "phase_offsets": [round(rng.uniform(-180, 180), 2) for _ in inf * m],
            "approximate": rng.random() < 0.3,
        }
    kinds = ["scale", "datum", "sum", "trendline", "shift"]
    if two:
        kinds += ["quarter", "half", "mirror", "swap", "turn", "turn"]
    robust = rng.random() < 0.25
    if robust:
        kinds = [k for k in kinds if k not in ("sum", "shift")]
    auto = not infer and span >= 16 and span < 61 and rng.random() < 0.2 and dt_h <= 1
    return {
        "start": float(rng.randint(690000, 750000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "truth": st.gen_truth(rng, names, two, True),
        "names": names,
        "auto": auto,
        "infer": infer,
        "lat": st.gen_lat(rng),
        "chan": st.gauge.gen_channel(rng),
        "noise": rng.choice([0.05, 0.3, 3.0]),
        "nseed": rng.randrange(1 << 30),
        "grid": rng.random() < 0.5,
        "changes": [
            {
                "kind": k,
                "a": rng.choice([-1.0, 100.0, 0.3048, 1e-3, -2.5, 1e4, 2.0, 1e-9, 1e7]),
                "b": rng.choice([1.0, -7.3, 250.0]),
                "phi": round(rng.uniform(0, 360), 3),
                "days": rng.choice([1, 27, 365, 1461, -3000]),
            }
            for k in rng.sample(kinds, rng.randint(1, min(3, len(kinds))))
        ],
        "opts": {
            "nodal": rng.choice([True, True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": ci,
            "white": rng.random() < 0.5,
            "order_constit": rng.choice([None, "PE", "frequency", "SNR" if ci != "none" else None]),
            "method": "robust" if robust else "ols",
            "verbose": False,
        },
        "wf": rng.choice(["cauchy", "huber", "bisquare", "welsch", "fair"]),
    }


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    two, lat, o = sc["two"], sc["lat"], sc["opts"]
    tref = 0.5 * (t[0] + t[-1])
    names = list(sc["names"])
    want = list(names)
    B = rm.design(t[rec], tref, names, lat, o["nodal"], o["phase"], o["trend"], t[-1] - t[0])
    if B.shape[0] < 2 * B.shape[1] + 12:
        return
    s = np.linalg.svd(B, compute_uv=False)
    if not s[0] / s[-1] < 100:
        ctx.probes["badly conditioned sampling skipped"] += 1
        return
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))

    def record():
        u, v = rm.synth(t, tref, sc["truth"], lat, True, "Greenwich")
        u = u + sc["noise"] * g.standard_normal(len(t))
        if two:
            v = v + 0.7 * sc["noise"] * g.standard_normal(len(t))
        return u + (1j * v if two else 0)

    def solve(tt, x, infer="same"):
        x = x.copy()
        if sc["grid"]:
            x[~rec] = np.nan
        else:
            tt, x = tt[rec], x[rec]
        kw = dict(o, lat=lat, epoch="python", constit="auto" if sc["auto"] else names)
        inf = sc["infer"] if infer == "same" else infer
        if inf:
            kw["infer"] = copy.deepcopy(inf)
        if o["method"] == "robust":
            kw["robust_kw"] = {"weight_function": sc["wf"], "tol": 1e-9, "maxit": 200}
        ctx.calls["solve"] += 1
        try:
            return utide.solve(tt, x.real, x.imag, **kw) if two else utide.solve(tt, x.real, **kw)
        except Exception as e:
            ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")

    x = record()
    c0 = solve(t, x)
    if sc["auto"]:
        want = [str(n) for n in c0["name"]]
        if len(want) > 0.2 * rec.sum() / 2:
            return
        C = rm.design(t[rec], tref, want, lat, o["nodal"], o["phase"], o["trend"], t[-1] - t[0])
        s = np.linalg.svd(C, compute_uv=False)
        if not s[0] / s[-1] < 300:
            ctx.probes["badly conditioned sampling skipped"] += 1
            return
    if sc["infer"]:
        want += [n for n in sc["infer"]["inferred_names"]]
    ctx.log("solved", int(rec.sum()), len(want))
    p0, q0 = st.phasors(c0, want, two)
    for ch in sc["changes"]:
        k = ch["kind"]
        a, b = 1.0, 0.0
        rot, conj = 1.0, False
        tt, extra, infer = t, None, "same"
        ramp = 0.0
        if k == "scale":
            a = ch["a"]
        elif k == "datum":
            b = ch["b"] * (1 - 0.5j if two else 1)
        elif k == "sum":
            extra = record()
        elif k == "trendline":
            if not o["trend"]:
                continue
            ramp = 0.01 * ch["b"]
        elif k == "shift":
            if o["nodal"] or o["phase"] != "raw":
                continue
            tt = t + ch["days"]
        elif k == "quarter":
            rot = 1j
        elif k == "half":
            rot = -1.0
        elif k == "turn":
            rot = np.exp(1j * np.deg2rad(ch["phi"]))
        elif k in ("mirror", "swap"):
            conj = True
            rot = 1.0 if k == "mirror" else 1j
            infer = mirrored(sc["infer"])
        y = x
        if extra is not None:
            y = x + extra
        if conj:
            y = y.conj()
        y = rot * a * y + b + ramp * (t - tref)
        c = solve(tt, y, infer)
        ctx.nontrivial = True
        ctx.faults[f"replica with other {k}"] += 1
        ctx.state(rec.tolist(), k, sorted(map(str, o.items())))
        p, q = st.phasors(c, want, two) if sorted(c["name"]) == sorted(c0["name"]) else (None, None)
        if p is None:
            ctx.fail(k, f"constituents {sorted(c['name'])} instead of {sorted(c0['name'])}")
        m = mean_of(c0, two, o["trend"])
        if extra is not None:
            c2 = solve(t, extra)
            p2, q2 = st.phasors(c2, want, two)
            wp, wq = p0 + p2, q0 + q2
            m = [i + j for i, j in zip(m, mean_of(c2, two, o["trend"]), strict=True)]
        elif conj:
            wp, wq = rot * q0.conj(), rot * p0.conj()
            m = [rot * np.conj(i) for i in m]
        else:
            wp, wq = a * rot * p0, a * rot * q0
            m = [a * rot * i for i in m]
        m[0] = m[0] + b
        m[1] = m[1] + ramp
        size = float(np.abs(y[rec]).max()) + abs(a) * float(np.abs(x[rec]).max())
        lim = (1e-9 if o["method"] == "ols" else 2e-5) * size
        if k == "shift":
            lim = 2e-5 * size
        if k in ("datum", "trendline") and o["method"] == "robust":
            lim *= 3
        e = np.maximum(np.abs(p - wp), np.abs(q - wq))
        if not np.all(e <= lim):
            j = int(np.nanargmax(e)) if np.isfinite(e).any() else 0
            ctx.fail(
                k,
                f"{describe(ch)}: {want[j]} has phasors {p[j]:.6g} {q[j]:.6g} instead of {wp[j]:.6g} {wq[j]:.6g}",
            )
        got = mean_of(c, two, o["trend"])
        if not (abs(got[0] - m[0]) <= 10 * lim and abs(got[1] - m[1]) * (t[-1] - t[0]) <= 10 * lim):
            ctx.fail(k, f"{describe(ch)}: mean and slope {got} instead of {m}")
        if not two:
            A = np.abs(p)
        if o["conf_int"] == "none" or k in ("turn", "sum") or extra is not None:
            continue
        rt = 1e-6 if o["method"] == "ols" and k != "shift" else 2e-3
        i0 = [list(c0["name"]).index(n) for n in want]
        i1 = [list(c["name"]).index(n) for n in want]
        for f in ("A_ci", "Lsmaj_ci", "Lsmin_ci", "g_ci", "theta_ci", "PE", "SNR"):
            if f not in c0:
                continue
            r0, r1 = np.asarray(c0[f])[i0], np.asarray(c[f])[i1]
            if f in ("A_ci", "Lsmaj_ci", "Lsmin_ci"):
                r0 = abs(a) * r0
            atol = 1e-9 * (abs(a) if f[-2:] == "ci" else 1)
            bad = ~(np.isclose(r0, r1, rtol=rt, atol=atol) | (np.isnan(r0) & np.isnan(r1)))
            # angles of a nearly circular ellipse are ill-conditioned
            if two and f in ("g_ci", "theta_ci"):
                L, S = np.asarray(c0["Lsmaj"])[i0], np.abs(np.asarray(c0["Lsmin"])[i0])
                bad &= (L - S) > 0.02 * L
            if two and f in ("Lsmaj_ci", "Lsmin_ci", "SNR"):
                L, S = np.asarray(c0["Lsmaj"])[i0], np.abs(np.asarray(c0["Lsmin"])[i0])
                bad &= ((L - S) > 0.02 * L) & (S > 1e-3 * L)
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                ctx.fail(
                    k + " intervals",
                    f"{describe(ch)}: {f} of {want[j]} is {r1[j]:.8g} instead of {r0[j]:.8g}",
                )
        ctx.probes["interval sets compared"] += 1


def mean_of(c, two, trend):
    """[mean (at the reference time), slope], complex for 2-D"""
    if two:
        return [c["umean"] + 1j * c["vmean"], (c["uslope"] + 1j * c["vslope"]) if trend else 0.0]
    return [c["mean"], c["slope"] if trend else 0.0]


def mirrored(inf):
    if not inf:
        return None
    inf = copy.deepcopy(inf)
    n = len(inf["inferred_names"])
    for k in ("amp_ratios", "phase_offsets"):
        inf[k] = inf[k][n:] + inf[k][:n]
    return inf


def describe(ch):
    k = ch["kind"]
    return {
        "scale": f"values times {ch['a']}",
        "datum": f"datum moved by {ch['b']}",
        "turn": f"axes turned by {ch['phi']}",
        "shift": f"{ch['days']} days later",
        "trendline": f"trend changed by {0.01 * ch['b']} per day",
    }.get(k, k)


def shrink(sc, rep):
    if len(sc["changes"]) > 1:
        for c in sc["changes"]:
            yield {**copy.deepcopy(sc), "changes": [copy.deepcopy(c)]}
    if sc["infer"]:
        yield {**copy.deepcopy(sc), "infer": None}
    if sc["auto"]:
        yield {**copy.deepcopy(sc), "auto": False}
    used = set((sc["infer"] or {}).get("reference_names", []))
    if len(sc["names"]) > 1:
        for n in sc["names"]:
            if n not in used:
                yield {**copy.deepcopy(sc), "names": [x for x in sc["names"] if x != n]}
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", False), ("phase", "raw"), ("order_constit", None), ("method", "ols"), ("white", True)):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
