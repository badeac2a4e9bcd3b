"""
C27  Monte Carlo intervals of a current follow the direction of the noise.

A current meter is shaken along one direction more than across it; in the coloured case a
second disturbance shakes it along another direction within one frequency band.  The
intervals of every ellipse parameter must be those of the noise as known from the
simulation, projected on the ellipse: an ellipse along the shaking has an uncertain major
and a certain minor axis, one across it the reverse.
"""

import copy
import os

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl
from .c25 import BANDS, IN, band_noise

ID = "C27"
COUNTS = {"quick": 200, "thorough": 3000}
LIMIT = 120.0
RULE = (
    "one current of 1-4 constituents, noise with a principal direction (ratio of the axes 0.05-0.5), in a third of the "
    "coloured runs a second disturbance with another direction in one band; lossy gauge; 7 draws of noise and stream; "
    "non-trivial: a well-determined ellipse was judged"
)
STATES = "distinct (received pattern, noise direction, band direction)"
REAL = ["utide (all modules, unmodified)", "numpy random generator"]
STUB = ["ocean and noise (reference model)", "gauge, telemetry and archive (event simulation)", "random stream (seeded)"]
ASSUMPTIONS = [
    "coloured intervals are judged on the code's scale (half the variance, see the known finding of C25) and within a "
    "wider factor, as a band has few lines",
    "the quadrature spectrum (rotating noise) is ignored by design of the code",
]
NDRAW = 7
TIGHT, LOOSE = (0.75, 1.33), (0.55, 1.7)


def generate(rng, tier, i):
    white = rng.random() < 0.5
    span = rng.choice([20.0, 31.0]) if white else rng.choice([45.0, 60.0, 90.0])
    ks = sorted(rng.sample(range(5), rng.randint(1, 3)))
    names = []
    for k in ks:
        pick = rng.sample(IN[k], rng.randint(1, 2))
        names += [n for n in pick if all(abs(st.F0[n] - st.F0[m]) * 24 * span > 1.3 for m in names)]
    tr = st.gen_truth(rng, names, True, True)
    tr["Lsmaj"] = [round(rng.uniform(0.5, 2.0), 3) for _ in names]
    tr["Lsmin"] = [round(a * rng.choice([-1, 1]) * rng.uniform(0.25, 0.6), 4) for a in tr["Lsmaj"]]
    if rng.random() < 0.4:
        # an ellipse along or across the noise
        tr["theta"] = [rng.choice([45.0, 135.0]) for _ in names]
    chan = st.gauge.gen_channel(rng)
    chan.update(outages=[], crashes=[], drop=rng.choice([0, 0, 0.01, 0.05]))
    band = None
    if not white and rng.random() < 0.4:
        band = {"k": rng.choice(ks), "dir": rng.choice([45.0, 135.0, round(rng.uniform(0, 180), 1)]), "gain": rng.choice([3.0, 10.0])}
        chan.update(jitter=0, drift=0, drop=0)
    ratio = rng.choice([0.05, 0.2, 0.5])
    if not white and (chan["drop"] or chan["jitter"] or band):
        # leaked, interpolated or irregular noise does not leave so narrow a direction
        ratio = max(ratio, 0.2)
    return {
        "start": float(rng.randint(690000, 750000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": 1,
        "truth": tr,
        "sigma": rng.choice([0.005, 0.02]),
        "dir": rng.choice([45.0, 135.0, round(rng.uniform(0, 180), 1)]),
        "ratio": ratio,
        "band": band,
        "lat": round(rng.uniform(-70, 70), 2),
        "chan": chan,
        "nseed": rng.randrange(1 << 30),
        "grid": rng.random() < 0.6,
        "opts": {
            "white": white,
            "nodal": rng.choice([True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": "MC",
            "order_constit": rng.choice([None, "PE", "frequency", "SNR"]),
            "verbose": False,
        },
    }


def sigma_of(direction, major, minor):
    a = np.deg2rad(direction)
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return R @ np.diag([major**2, minor**2]) @ R.T


def ellipse(x):
    """(Xu, Yu, Xv, Yv) -> Lsmaj, Lsmin, theta, g (degrees, no wrapping)"""
    Xu, Yu, Xv, Yv = x
    ap = (Xu + Yv + 1j * (Xv - Yu)) / 2
    am = (Xu - Yv + 1j * (Xv + Yu)) / 2
    p, m = np.angle(ap, deg=True), np.angle(am, deg=True)
    return np.array([abs(ap) + abs(am), abs(ap) - abs(am), (p + m) / 2, (m - p) / 2])


def standard_errors(L, S, theta, g, cov):
    th, ph = np.deg2rad(theta), np.deg2rad(g)
    ap, am = 0.5 * (L + S) * np.exp(1j * (th - ph)), 0.5 * (L - S) * np.exp(1j * (th + ph))
    x0 = np.array([(ap + am).real, -(ap - am).imag, (ap + am).imag, (ap - am).real])
    J = np.empty((4, 4))
    h = 1e-6 * L
    for k in range(4):
        d = np.zeros(4)
        d[k] = h
        y = ellipse(x0 + d) - ellipse(x0 - d)
        y[2:] = (y[2:] + 90) % 180 - 90
        J[:, k] = y / (2 * h)
    return np.sqrt(np.diag(J @ cov @ J.T))


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    lat, o, tr = sc["lat"], sc["opts"], dict(sc["truth"])
    if not o["trend"]:
        tr["uslope"] = tr["vslope"] = 0.0
    tref = 0.5 * (t[0] + t[-1])
    names = tr["names"]
    u, v = rm.synth(t, tref, tr, lat, o["nodal"], o["phase"])
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    S1 = sigma_of(sc["dir"], sc["sigma"], sc["sigma"] * sc["ratio"])
    root = np.linalg.cholesky(S1)
    b = sc["band"]
    if b:
        fs = 1 / sc["dt_h"]
        # one-sided density matrix of the disturbance
        D2 = sigma_of(b["dir"], b["gain"], b["gain"] * sc["ratio"]) * 2 * sc["sigma"] ** 2 / fs
        root2 = np.linalg.cholesky(D2)
        lo, hi = BANDS[b["k"]]
        total = S1 + D2 * (hi - lo)
        if abs(total[0, 1]) < 0.3 * np.sqrt(total[0, 0] * total[1, 1]):
            ctx.probes["no overall direction: not judged"] += 1
            return
    ctx.faults["directional noise"] += 1
    got = {}
    for draw in range(NDRAW):
        w = root @ g.standard_normal((2, len(t)))
        if b:
            ctx.faults["directional disturbance in a band"] += 1
            w = w + root2 @ np.array([band_noise(t, lo, hi, 1.0, g) for _ in range(2)])
        a = [t, u + w[0], v + w[1]]
        if sc["grid"]:
            a[1][~rec] = np.nan
            a[2][~rec] = np.nan
        else:
            a = [y[rec] for y in a]
        ctx.calls["solve"] += 1
        np.random.seed((sc["nseed"] + draw) % (1 << 31))
        try:
            c = utide.solve(*a, lat=lat, epoch="python", constit=names, **o)
        except Exception as e:
            ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")
        for j, nm in enumerate(map(str, c["name"])):
            got.setdefault(nm, []).append([float(c[k + "_ci"][j]) for k in ("Lsmaj", "Lsmin", "theta", "g")])
    tg = t[rec]
    E = rm.basis(tg, tref, names, lat, o["nodal"], o["phase"])
    R = [E.real, E.imag, np.ones((len(tg), 1))]
    if o["trend"]:
        R.append(((tg - tref) / (t[-1] - t[0]))[:, None])
    R = np.hstack(R)
    K = np.linalg.inv(R.T @ R)
    n = len(names)
    T = 24 * (t[-1] - t[0])
    ctx.log("solved", int(rec.sum()), n, o["white"], b and b["k"])
    ctx.state(rec.tolist(), sc["dir"], b and b["dir"])
    for i, nm in enumerate(names):
        K2 = K[np.ix_([i, n + i], [i, n + i])]
        if o["white"]:
            cov = np.kron(S1, K2)
        else:
            D = S1 * 2 * sc["dt_h"]
            if b and BANDS[b["k"]][0] <= st.F0[nm] <= BANDS[b["k"]][1]:
                D = D + D2
            # the code's scale: the sum over the quadratures is density / record length
            cov = np.kron(D / T, K2 / np.trace(K2))
        want = 1.96 * standard_errors(tr["Lsmaj"][i], tr["Lsmin"][i], tr["theta"][i], tr["g"][i], cov)
        small = min(abs(tr["Lsmin"][i]), tr["Lsmaj"][i] - abs(tr["Lsmin"][i]))
        if max(want[:2]) > small / 8:
            ctx.probes["too noisy to judge"] += 1
            continue
        ctx.nontrivial = True
        med = np.median(np.array(got[nm]), axis=0)
        r = med / want
        ctx.probes["ellipses judged"] += 1
        if os.environ.get("DST_RATIOS"):
            print("RATIO", *np.round(r, 3), o["white"], bool(b), sc["grid"], bool(sc["chan"]["jitter"]), sc["ratio"], nm, flush=True)
        lim = TIGHT if o["white"] else LOOSE
        for k, x in enumerate(r):
            if not lim[0] <= x <= lim[1]:
                ctx.fail(
                    "interval",
                    f"{('Lsmaj', 'Lsmin', 'theta', 'g')[k]}_ci of {nm} (theta {tr['theta'][i]}): median {med[k]:.4g}, the "
                    f"noise along {sc['dir']} degrees{f' and {b}' if b else ''} gives {want[k]:.4g} "
                    f"({'white' if o['white'] else 'coloured'})",
                )


def shrink(sc, rep):
    for k, simple in (("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", False), ("phase", "raw"), ("order_constit", None), ("trend", False)):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
    for k, simple in (("band", None), ("grid", True), ("dir", 45.0), ("lat", 45.0)):
        if sc[k] != simple:
            yield {**copy.deepcopy(sc), k: simple}
    if len(sc["truth"]["names"]) > 1:
        for i in range(len(sc["truth"]["names"])):
            c = copy.deepcopy(sc)
            for k, x in c["truth"].items():
                if isinstance(x, list):
                    del x[i]
            yield c
