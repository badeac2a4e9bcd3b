"""
C08  White-noise confidence intervals cover the truth at their nominal rate.

A simulated gauge measures a known tide many times over with fresh noise and fresh data
loss; the errors of the estimates, in units of the interval's standard deviation, must
have unit spread (not optimistic, not useless), for linearised and Monte Carlo intervals,
1-D and 2-D, whatever was lost.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C08"
COUNTS = {"quick": 110, "thorough": 1600}
LIMIT = 120.0
RULE = (
    "one configuration (constituents, sampling, loss pattern, options, 1-D/2-D, linear "
    "or MC) replayed with 150 independent noise and loss realisations; non-trivial: at "
    "least one constituent well determined, so that z-scores could be pooled"
)
STATES = "distinct (1-D/2-D, interval method, loss pattern, option) combinations"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["ocean and noise (reference model)", "gauge with sample loss", "numpy random stream"]
ASSUMPTIONS = [
    "white=True only: the default coloured estimate has by design (as in Matlab UTide) "
    "no nominal coverage on short records",
    "noise white, independent in u and v; constituents separated and well determined",
]
M = 150
NEAR = {"S2": ["K2", "T2"], "K1": ["P1"], "N2": ["NU2"], "M2": ["H1", "H2"], "O1": ["TAU1"]}
WEIGHTS = ["cauchy", "cauchy", "huber"]


def generate(rng, tier, i):
    span = rng.choice([10.0, 16.0, 20.0, 30.0])
    two = rng.random() < 0.55
    names = rng.sample(wl.names_for(span), rng.randint(2, 4))
    truth = [
        {
            "name": nm,
            "A": round(rng.uniform(0.6, 2.0), 3),
            "r": rng.choice([-1, 1]) * round(rng.uniform(0.3, 0.6), 3),
            "g": rng.choice([0.0, 180.0, 359.9]) if rng.random() < 0.3 else round(rng.uniform(0, 360), 2),
            "th": rng.choice([0.0, 179.9]) if rng.random() < 0.3 else round(rng.uniform(0, 180), 2),
        }
        for nm in names
    ]
    sig = rng.choice([0.03, 0.1, 0.2])
    inf = None
    refs = [n for n in names if n in NEAR]
    if refs and rng.random() < 0.4:
        ref = rng.choice(refs)
        cand = NEAR[ref][:]
        rng.shuffle(cand)
        k = min(len(cand), rng.choice([1, 1, 2]))
        m = 2 if two else 1
        inf = {
            "inferred_names": cand[:k],
            "reference_names": [ref] * k,
            # equal ratios: otherwise the coefficients are correlated, which the linear
            # propagation by design leaves out
            "amp_ratios": [round(rng.uniform(0.15, 0.4), 3) for _ in range(k)] * m,
            "phase_offsets": [round(rng.uniform(-60, 60), 1) for _ in range(k * m)],
        }
    if inf:
        return {**scenario(rng, span, two, names, truth, sig, 1.0), "ci": "linear", "robust": None, "infer": inf}
    return scenario(rng, span, two, names, truth, sig, rng.choice([1.0, 1.0, 0.5, 2.0]))


def scenario(rng, span, two, names, truth, sig, vratio):
    return {
        "start": float(rng.randint(725000, 740000)),
        "span": span,
        "dt_h": rng.choice([1, 1, 2]) if "M8" not in names else 1,
        "two": two,
        "truth": truth,
        "sigma": [sig, sig * vratio] if two else [sig, sig],
        "nseed": rng.randrange(1 << 30),
        "jitter": rng.random() < 0.3,
        "loss": rng.choice(["none", "random", "burst", "random+burst", "half"]),
        "lat": round(rng.uniform(-70, 70), 1),
        "ci": rng.choice(["linear", "linear", "MC"]),
        "datum": rng.choice([0.0, 0.0, -12.0, 1500.0]),
        "robust": rng.choice(WEIGHTS) if rng.random() < 0.2 else None,
        "opts": {
            "trend": rng.random() < 0.8,
            "nodal": rng.choice([True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "linear_time", "raw"]),
            "order_constit": rng.choice(["PE", "frequency", "SNR"]),
        },
    }


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    dt = sc["dt_h"] / 24
    n = int(sc["span"] / dt) + 1
    t = sc["start"] + dt * np.arange(n)
    if sc["jitter"]:
        j = g.uniform(-0.2, 0.2, n) * dt
        j[0] = j[-1] = 0
        t = t + j
    tref = 0.5 * (t[0] + t[-1])
    tr = sc["truth"]
    names = [x["name"] for x in tr]
    if sc["two"]:
        truth = {
            "names": names,
            "Lsmaj": [x["A"] for x in tr],
            "Lsmin": [x["A"] * x["r"] for x in tr],
            "theta": [x["th"] for x in tr],
            "g": [x["g"] for x in tr],
            "umean": 0.1,
            "vmean": -0.2,
            "uslope": 0.0,
            "vslope": 0.0,
        }
        params = ["Lsmaj", "Lsmin", "theta", "g"]
    else:
        truth = {
            "names": names,
            "A": [x["A"] for x in tr],
            "g": [x["g"] for x in tr],
            "mean": 0.3,
            "slope": 0.0,
        }
        params = ["A", "g"]
    if sc.get("infer"):
        truth = st.infer_truth(truth, sc["infer"])
        names = truth["names"]
    u0, v0 = rm.synth(t, tref, truth, sc["lat"], sc["opts"]["nodal"], sc["opts"]["phase"])
    kw = dict(
        sc["opts"],
        lat=sc["lat"],
        constit=names,
        epoch="python",
        verbose=False,
        white=True,
        conf_int=sc["ci"],
    )
    if sc["robust"]:
        kw.update(
            method="robust",
            conf_int="linear",
            robust_kw={"weight_function": sc["robust"]},
        )
    if sc.get("infer"):
        kw["infer"] = copy.deepcopy(sc["infer"])
        ctx.probes["inferred constituents"] += 1
    z = {p: [] for p in params}
    np.random.seed(sc["nseed"] % (1 << 31))
    lost_total = 0
    for _ in range(M):
        keep = np.ones(n, bool)
        if "random" in sc["loss"]:
            keep &= g.random(n) >= 0.15
        if "burst" in sc["loss"]:
            for _b in range(2):
                a = int(g.integers(2, n - n // 6 - 2))
                keep[a : a + int(g.integers(3, n // 8))] = False
        if sc["loss"] == "half":
            keep &= g.random(n) >= 0.5
        keep[0] = keep[-1] = True
        u = u0 + sc["datum"] + sc["sigma"][0] * g.standard_normal(n)
        if sc["robust"]:  # undetected corruption, all to one side
            k = g.choice(n, n // 25, replace=False)
            u[k] += sc["sigma"][0] * g.uniform(20, 200, len(k))
            ctx.faults["value corrupted undetected"] += len(k)
        u[~keep] = np.nan
        args = [t, u]
        if v0 is not None:
            v = v0 + sc["sigma"][1] * g.standard_normal(n)
            args.append(v)
        lost_total += int((~keep).sum())
        ctx.calls["solve"] += 1
        try:
            c = utide.solve(*args, **kw)
        except Exception as e:
            ctx.fail("unexpected-exception", f"{type(e).__name__}: {e}")
        ix = [list(c["name"]).index(x) for x in names]
        for p in params:
            d = np.asarray(c[p])[ix] - np.asarray(truth[p])
            if p == "g":
                per = 180 if sc["two"] else 360  # (theta, g) ~ (theta+180, g+180)
                d = (d + per / 2) % per - per / 2
            elif p == "theta":
                d = (d + 90) % 180 - 90
            z[p].append(d / (np.asarray(c[p + "_ci"])[ix] / 1.96))
    ctx.sim_days += float(M * (t[-1] - t[0]))
    ctx.faults["sample lost"] += lost_total
    ctx.faults["noise realisation"] += M
    ctx.log(names, sc["ci"], sc["loss"])
    ctx.state(sc["two"], sc["ci"], sc["loss"], sorted(sc["opts"].items(), key=str))
    ctx.nontrivial = True
    for p in params:
        zz = np.array(z[p])
        if not np.isfinite(zz).all():
            ctx.fail("interval-invalid", f"{p}_ci is not finite and positive")
        # standard error of an rms over k samples is 1/sqrt(2k)
        for what, x in [("all", zz.ravel())] + [(nm, zz[:, k]) for k, nm in enumerate(names)]:
            rms = float(np.sqrt(np.mean(x**2)))
            se = 1 / np.sqrt(2 * x.size)
            lo, hi = 1 - 5 * se - 0.06, 1 + 5.5 * se + 0.06
            if sc["robust"]:
                # only asymptotic theory here, and huber does not bound the misfit
                lo, hi = (lo - 0.2 if sc["robust"] != "huber" else 0.0), hi + 0.35
            if __import__("os").environ.get("DST_Z"):
                print("Z", sc["robust"], p, what == "all", f"{rms:.3f} {(rms-1)/se:.2f}", sc["two"], sc["ci"], flush=True)
            if not lo <= rms <= hi:
                ctx.fail(
                    "coverage",
                    f"{p} of {what}: errors are {rms:.2f} times what {p}_ci says "
                    f"({x.size} samples, allowed {lo:.2f}..{hi:.2f}); "
                    f"95% interval covers {100 * np.mean(np.abs(x) < 1.96):.0f}%",
                )


def shrink(sc, rep):
    if len(sc["truth"]) > 1:
        for i in range(len(sc["truth"])):
            c = copy.deepcopy(sc)
            del c["truth"][i]
            if not sc.get("infer") or sc["truth"][i]["name"] not in sc["infer"]["reference_names"]:
                yield c
    if sc.get("infer"):
        c = copy.deepcopy(sc)
        c["infer"] = None
        yield c
    for k, simple in (("jitter", False), ("loss", "none"), ("lat", 45.0), ("ci", "linear")):
        if sc[k] != simple:
            c = copy.deepcopy(sc)
            c[k] = simple
            yield c
    for k, simple in (("trend", True), ("nodal", False), ("phase", "raw"), ("order_constit", "PE")):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
