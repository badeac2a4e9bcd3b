"""
C30  The analysis of a current is the analysis of its components.

A current meter's archive keeps the vector; two other archives of the same instrument keep
one component each and mark what the other one lost as missing.  The ellipses, mean and
trend of the vector must be those that the scalar constants of the two components make up,
with the intervals that the components' intervals imply, and its predictions those of the
two.  A current along one line has the constants of the scalar that moves along it, also
for robust fits.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C30"
COUNTS = {"quick": 420, "thorough": 8000}
LIMIT = 90.0
RULE = (
    "one lossy current meter with noise of its own in each component, analysed as a vector and as two scalars, or a "
    "current along one line analysed as a vector and as a scalar; every option set; non-trivial: constants of "
    "both analyses were compared"
)
STATES = "distinct (received pattern, option set)"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["ocean (reference model and noise)", "gauge, telemetry and archive (event simulation)"]
ASSUMPTIONS = [
    "vector against two scalars for ordinary least squares and linearised intervals: robust weights and Monte Carlo "
    "intervals of a vector depend on both components",
    "intervals compared where those of the scalars determine both variances and the ellipse is not nearly circular",
    "inference with the same ratio and offset for both rotating components",
]


def generate(rng, tier, i):
    span = rng.choice([10.0, 16.0, 31.0, 31.0, 60.0, 120.0])
    dt_h = rng.choice([0.5, 1, 1, 2] if span < 61 else [2, 3])
    cap = {10.0: 3, 16.0: 5, 31.0: 8, 60.0: 10, 120.0: 12}[span]
    names = st.gen_names(rng, span, dt_h, rng.randint(1, cap), None if rng.random() < 0.5 else st.COMMON) or ["M2"]
    line = rng.random() < 0.3
    infer = None
    if rng.random() < 0.3:
        refs = rng.sample(names, min(len(names), rng.randint(1, 2)))
        free = [n for n in rm.NAMES if n not in names and n not in ("Z0", "M7")]
        inf = rng.sample(free, rng.randint(1, 3))
        infer = {
            "inferred_names": inf,
            "reference_names": [rng.choice(refs) for _ in inf],
            "amp_ratios": [round(rng.uniform(0.05, 0.5), 3) for _ in inf],
            "phase_offsets": [round(rng.uniform(-180, 180), 2) for _ in inf],
            "approximate": rng.random() < 0.3,
        }
    robust = line and rng.random() < 0.6
    return {
        "start": float(rng.randint(660000, 760000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": dt_h,
        "line": line,
        "phi": rng.choice([0.0, 90.0, 180.0, 45.0]) if rng.random() < 0.3 else round(rng.uniform(0, 360), 3),
        "truth": st.gen_truth(rng, names, True, True),
        "names": names,
        "auto": not infer and 16 <= span < 61 and dt_h <= 1 and rng.random() < 0.2,
        "infer": infer,
        "lat": st.gen_lat(rng),
        "chan": st.gauge.gen_channel(rng),
        "noise": [rng.choice([0.02, 0.3, 2.0]), rng.choice([0.02, 0.3, 2.0])],
        "spikes": rng.choice([0, 0, 0.03]),
        "lostu": rng.choice([0, 0, 0.05]),
        "lostv": rng.choice([0, 0, 0.05]),
        "nseed": rng.randrange(1 << 30),
        "grid": rng.random() < 0.6,
        "cont": rng.choice(["arr", "arr", "list", "ma", "ser"]),
        "pick": rng.randrange(1 << 16),
        "opts": {
            "nodal": rng.choice([True, True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": "none" if line else rng.choice(["none", "linear", "linear", "linear"]),
            "white": rng.random() < 0.5,
            "order_constit": rng.choice([None, "PE", "frequency"]),
            "method": "robust" if robust else "ols",
            "verbose": False,
        },
        "wf": rng.choice(["cauchy", "huber", "bisquare", "welsch", "fair", "andrews", "logistic", "talwar"]),
    }


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    lat, o = sc["lat"], sc["opts"]
    tref = 0.5 * (t[0] + t[-1])
    names = list(sc["names"])
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    n = len(t)
    # each component may lose samples of its own
    mu, mv = ~rec, ~rec
    if sc["grid"]:
        inner = np.r_[False, np.ones(n - 2, bool), False]
        mu = mu | (inner & (g.random(n) < sc["lostu"]))
        mv = mv | (inner & (g.random(n) < sc["lostv"]))
        if sc["line"]:
            mv = mu
    lost = mu | mv
    if (~lost).sum() < 4:
        return
    if not sc["grid"]:
        t, mu, mv, lost = t[rec], mu[rec], mv[rec], lost[rec]
        n = len(t)
    good = ~lost
    want = names
    B = rm.design(t[good], tref, names, lat, o["nodal"], o["phase"], o["trend"], t[-1] - t[0])
    if B.shape[0] < 2 * B.shape[1] + 12:
        return
    s = np.linalg.svd(B, compute_uv=False)
    if not s[0] / s[-1] < 100:
        ctx.probes["badly conditioned sampling skipped"] += 1
        return
    u, v = rm.synth(t, tref, sc["truth"], lat, True, "Greenwich")
    if sc["line"]:
        h = u + sc["noise"][0] * g.standard_normal(n)
        if sc["spikes"]:
            k = g.random(n) < sc["spikes"]
            h[k] += 40 * g.standard_normal(int(k.sum()))
            ctx.faults["sensor fault: spikes"] += int(k.sum())
        rot = np.exp(1j * np.deg2rad(sc["phi"]))
        u, v = (h * rot).real, (h * rot).imag
    else:
        u = u + sc["noise"][0] * g.standard_normal(n)
        v = v + sc["noise"][1] * g.standard_normal(n)

    def solve(*xs, ma):
        kw = dict(o, lat=lat, epoch="python", constit="auto" if sc["auto"] else names)
        if sc["infer"]:
            kw["infer"] = copy.deepcopy(sc["infer"])
            if len(xs) == 2:
                for k in ("amp_ratios", "phase_offsets"):
                    kw["infer"][k] = kw["infer"][k] * 2
        if o["method"] == "robust":
            kw["robust_kw"] = {"weight_function": sc["wf"], "tol": 1e-9, "maxit": 200}
        ctx.calls["solve"] += 1
        try:
            return utide.solve(t, *[wl.rep_vals(x, m, sc["cont"]) for x, m in zip(xs, ma, strict=True)], **kw)
        except Exception as e:
            ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")

    c = solve(u, v, ma=(mu, mv))
    parts = [solve(h, ma=(lost,))] if sc["line"] else [solve(u, ma=(lost,)), solve(v, ma=(lost,))]
    want = [str(x) for x in c["name"]]
    for d in parts:
        if sorted(map(str, d["name"])) != sorted(want):
            ctx.fail("constituents", f"vector has {sorted(want)}, component {sorted(map(str, d['name']))}")
    if sc["auto"]:
        C = rm.design(t[good], tref, want, lat, o["nodal"], o["phase"], o["trend"], t[-1] - t[0])
        s = np.linalg.svd(C, compute_uv=False)
        if C.shape[0] < 2 * C.shape[1] or not s[0] / s[-1] < 300:
            ctx.probes["badly conditioned sampling skipped"] += 1
            return
    ctx.nontrivial = True
    ctx.faults["sample lost in one component"] += int((mu != mv).sum())
    ctx.state(lost.tolist(), sorted(map(str, o.items())), sc["line"])
    ctx.log("solved", int(good.sum()), len(want))
    p, q = st.phasors(c, want, True)
    P = [st.phasors(d, want, False)[0] for d in parts]
    trend = o["trend"]
    if sc["line"]:
        (C,) = P
        wp, wq = 0.5 * rot * C, 0.5 * rot * C.conj()
        m = [rot * parts[0]["mean"], rot * parts[0]["slope"] if trend else 0.0]
    else:
        Cu, Cv = P
        wp, wq = 0.5 * (Cu + 1j * Cv), 0.5 * (Cu.conj() + 1j * Cv.conj())
        a, b = parts
        m = [a["mean"] + 1j * b["mean"], a["slope"] + 1j * b["slope"] if trend else 0.0]
    size = float(np.abs(u[good] + 1j * v[good]).max())
    lim = (1e-9 if o["method"] == "ols" else 2e-5) * size
    e = np.maximum(np.abs(p - wp), np.abs(q - wq))
    if not np.all(e <= lim):
        j = int(np.nanargmax(e)) if np.isfinite(e).any() else 0
        ctx.fail("constants", f"{want[j]}: phasors of the vector {p[j]:.6g} {q[j]:.6g}, of the components {wp[j]:.6g} {wq[j]:.6g}")
    got = [c["umean"] + 1j * c["vmean"], c["uslope"] + 1j * c["vslope"] if trend else 0.0]
    if not (abs(got[0] - m[0]) <= 10 * lim and abs(got[1] - m[1]) * (t[-1] - t[0]) <= 10 * lim):
        ctx.fail("line", f"mean and slope {got}, of the components {m}")
    w = np.asarray(c["weights"])
    for d in parts:
        if not np.allclose(w, d["weights"], atol=1e-3 if sc["wf"] != "talwar" else 1, rtol=0):
            ctx.fail("weights", f"weights differ by {np.abs(w - d['weights']).max():.3g}")
    r = np.random.Generator(np.random.PCG64(sc["pick"]))
    tp = np.sort(r.uniform(t[0] - 40, t[-1] + 40, 7))
    keep = [x for x in want if r.random() < 0.7] or want
    for kw in ({"min_SNR": 0}, {"constit": keep}):
        ctx.calls["reconstruct"] += 1 + len(parts)
        try:
            out = utide.reconstruct(tp, c, epoch="python", verbose=False, **kw)
            hs = [utide.reconstruct(tp, d, epoch="python", verbose=False, **kw)["h"] for d in parts]
        except Exception as e:
            ctx.fail("unexpected-exception", f"reconstruct: {type(e).__name__}: {e}")
        y = out["u"] + 1j * out["v"]
        z = rot * hs[0] if sc["line"] else hs[0] + 1j * hs[1]
        big = size + float(np.abs(z).max())
        if not np.all(np.abs(y - z) <= 40 * len(want) * lim * big / size):
            ctx.fail("prediction", f"prediction of the vector differs from that of the components by {np.abs(y - z).max():.3g}")
    ctx.probes["vectors compared with components"] += 1
    if o["conf_int"] != "linear":
        return
    intervals(c, parts, want, ctx)


def ellipse(x):
    """(Lsmaj, Lsmin, theta, g) [rad] of (Xu, Yu, Xv, Yv)"""
    xu, yu, xv, yv = x
    a = 0.5 * ((xu + yv) + 1j * (xv - yu))
    b = 0.5 * ((xu - yv) + 1j * (xv + yu))
    return np.array([abs(a) + abs(b), abs(a) - abs(b), 0.5 * (np.angle(a) + np.angle(b)), 0.5 * (np.angle(b) - np.angle(a))])


def intervals(c, parts, want, ctx):
    for n in want:
        x, s2, ok = [], [], True
        for d in parts:
            j = [str(k) for k in d["name"]].index(n)
            g = np.deg2rad(d["g"][j])
            A = d["A"][j]
            X, Y = A * np.cos(g), A * np.sin(g)
            x += [X, Y]
            if not abs(X * X - Y * Y) > 0.1 * A * A or not A > 0:
                ok = False
                break
            va = (d["A_ci"][j] / 1.96) ** 2 * A**2
            vg = np.deg2rad(d["g_ci"][j] / 1.96) ** 2 * A**4
            # va = X^2 sx + Y^2 sy, vg = Y^2 sx + X^2 sy
            det = X**4 - Y**4
            s2 += [(X * X * va - Y * Y * vg) / det, (X * X * vg - Y * Y * va) / det]
        if not ok or not np.all(np.isfinite(s2)):
            continue
        j = [str(k) for k in c["name"]].index(n)
        L, S = c["Lsmaj"][j], abs(c["Lsmin"][j])
        if not (L - S > 0.05 * L and np.all(np.asarray(s2) > 0)):
            continue
        h = 1e-5 * L
        var = np.zeros(4)
        for k in range(4):
            dx = np.eye(4)[k] * h
            df = ellipse(np.array(x) + dx) - ellipse(np.array(x) - dx)
            df[2:] = (df[2:] + np.pi / 2) % np.pi - np.pi / 2
            var += (df / (2 * h)) ** 2 * s2[k]
        sig = 1.96 * np.sqrt(var)
        sig[2:] = np.rad2deg(sig[2:])
        for f, w in zip(("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci"), sig, strict=True):
            got = c[f][j]
            if not abs(got - w) <= 1e-3 * w + 1e-9:
                ctx.fail("intervals", f"{n}: {f} is {got:.6g}, the components' intervals make {w:.6g}")
        ctx.probes["interval sets compared"] += 1


def shrink(sc, rep):
    if sc["infer"]:
        yield {**copy.deepcopy(sc), "infer": None}
    for k, simple in (("auto", False), ("lostu", 0), ("lostv", 0), ("spikes", 0), ("cont", "arr"), ("grid", True)):
        if sc[k] != simple:
            yield {**copy.deepcopy(sc), k: simple}
    used = set((sc["infer"] or {}).get("reference_names", []))
    if len(sc["names"]) > 1:
        for n in sc["names"]:
            if n not in used:
                yield {**copy.deepcopy(sc), "names": [x for x in sc["names"] if x != n]}
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", False), ("phase", "raw"), ("order_constit", None), ("method", "ols"), ("white", True)):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
