"""
C18  Inferred constituents keep the prescribed relation to their references.

A network of stations: a long-running one gives ratios and lags, short-lived ones use
them for inference on whatever they received before they went down.  Whatever arrives, the
inferred constants are the prescribed ratio and lag of the reference's, in any listing
order; the water's own relation is recovered; the approximate method removes the
contamination of the reference; intervals scale along.
"""

import copy
import os
import pickle

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C18"
COUNTS = {"quick": 500, "thorough": 9000}
LIMIT = 90.0
RULE = (
    "1-4 inferred constituents on 1-3 references, prescribed or handed over by a long-running station through a "
    "crash, arbitrary or consistent water, a lossy gauge, every option set, permuted listings; non-trivial: an "
    "inferred constituent was compared"
)
STATES = "distinct (received pattern, inference set, option set)"
REAL = ["utide (all modules, unmodified)", "numpy", "pickle"]
STUB = ["ocean (reference model and noise)", "gauges, telemetry and archives (event simulation)", "crash of the donor station"]
ASSUMPTIONS = [
    "the approximate method is judged on near-regular records of a week or more, where its contamination formula applies",
    "interval scaling judged for linearised intervals of scalar series",
]
PAIRS = [("P1", "K1"), ("K2", "S2"), ("NU2", "N2"), ("2N2", "N2"), ("T2", "S2"), ("RHO1", "Q1"), ("S1", "K1"),
         ("PI1", "K1"), ("PHI1", "K1"), ("R2", "S2"), ("H1", "M2"), ("H2", "M2"), ("PSI1", "K1"), ("LDA2", "L2"),
         ("TAU1", "O1"), ("GAM2", "M2"), ("MKS2", "M2"), ("ALP1", "2Q1")]


def generate(rng, tier, i):
    span = rng.choice([7.5, 14.0, 15.0, 20.0, 29.0, 31.0, 60.0])
    dt_h = rng.choice([0.5, 1, 1])
    two = rng.random() < 0.45
    want = rng.randint(1, 4)
    pairs = []
    h = span * 24
    refs = []
    for nm, ref in rng.sample(PAIRS, len(PAIRS)):
        if len(pairs) == want:
            break
        if nm in refs or nm in [p[0] for p in pairs] or ref in [p[0] for p in pairs]:
            continue
        if ref not in refs:
            if any(abs(st.F0[ref] - st.F0[m]) * h < 1.2 for m in refs) or abs(st.F0[ref]) * h < 2:
                continue
            refs.append(ref)
        pairs.append([nm, ref])
    other = [
        n for n in st.gen_names(rng, span, dt_h, rng.randint(0, 4), st.COMMON)
        if n not in refs and n not in [p[0] for p in pairs] and all(abs(st.F0[n] - st.F0[m]) * h >= 1.2 for m in refs)
    ]
    mode = rng.choice(["arbitrary", "consistent", "consistent", "approx", "donor"])
    if mode == "donor":
        pairs = [p for p in pairs if abs(st.F0[p[0]] - st.F0[p[1]]) * 24 * 380 > 0.9]
    m = 2 if two else 1
    chan = st.gauge.gen_channel(rng)
    if mode == "approx":
        chan.update(jitter=0, drift=0, outages=[], crashes=[], drop=0.0)
    return {
        "mode": mode,
        "start": float(rng.randint(690000, 750000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "pairs": pairs,
        "truth": st.gen_truth(rng, refs + other, two, True),
        "other": other,
        "ratios": [round(rng.uniform(0.05, 0.6), 3) for _ in range(m * len(pairs))],
        "lags": [round(rng.choice([rng.uniform(-60, 60), rng.uniform(-360, 360)]), 2) for _ in range(m * len(pairs))],
        "lat": round(rng.choice([-1, 1]) * rng.uniform(6, 75), 2),
        "chan": chan,
        "noise": rng.choice([0.1, 1.0, 10.0]),
        "nseed": rng.randrange(1 << 30),
        "perm": rng.randrange(1 << 30),
        "listed": rng.choice(["refs", "all", "none", "auto"]),
        "grid": rng.random() < 0.5,
        "offset_days": rng.choice([0, 400, 3000, -2000]),
        "opts": {
            "nodal": rng.choice([True, True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": rng.choice(["none", "linear", "linear"]),
            "white": rng.random() < 0.6,
            "order_constit": rng.choice([None, "PE", "frequency"]),
            "method": "robust" if mode == "arbitrary" and rng.random() < 0.3 else "ols",
            "verbose": False,
        },
    }


def make_infer(sc, approximate=False, perm=None):
    n = len(sc["pairs"])
    idx = list(range(n)) if perm is None else list(np.random.Generator(np.random.PCG64(perm)).permutation(n))
    two = sc["two"]
    both = [*idx, *[i + n for i in idx]] if two else idx
    inf = {
        "inferred_names": [sc["pairs"][i][0] for i in idx],
        "reference_names": [sc["pairs"][i][1] for i in idx],
        "amp_ratios": [sc["ratios"][i] for i in both],
        "phase_offsets": [sc["lags"][i] for i in both],
    }
    if approximate:
        inf["approximate"] = True
    return inf


def relation(sc, i):
    n = len(sc["pairs"])
    j = i + n if sc["two"] else i
    rp = sc["ratios"][i] * np.exp(1j * np.deg2rad(sc["lags"][i]))
    rq = sc["ratios"][j] * np.exp(-1j * np.deg2rad(sc["lags"][j]))
    return rp, rq


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    sc = copy.deepcopy(sc)
    if not sc["pairs"]:
        return
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    two, lat, o = sc["two"], sc["lat"], sc["opts"]
    mode = sc["mode"]
    refs = list(dict.fromkeys(p[1] for p in sc["pairs"]))
    infd = [p[0] for p in sc["pairs"]]
    if mode == "donor":
        donor(sc, ctx, utide, g)
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    tref = 0.5 * (t[0] + t[-1])
    if rec.sum() < 0.4 * len(t):
        return
    if not o["trend"]:
        for k in ("slope", "uslope", "vslope"):
            if k in sc["truth"]:
                sc["truth"][k] = 0.0
    full = st.infer_truth(sc["truth"], make_infer(sc))
    ordinary = refs + sc["other"]
    u, v = rm.synth(t, tref, full, lat, o["nodal"], o["phase"])
    if mode == "arbitrary":
        u = u + sc["noise"] * g.standard_normal(len(t))
        if two:
            v = v + sc["noise"] * g.standard_normal(len(t))
    B = rm.design(t[rec], tref, ordinary, lat, o["nodal"], o["phase"], o["trend"], t[-1] - t[0])
    if len(B) < 2 * B.shape[1]:
        return

    from .c10 import infer_design

    B = infer_design(B, t[rec], tref, ordinary, {"infer": make_infer(sc), "opts": o}, lat)
    s = np.linalg.svd(B, compute_uv=False)
    if not s[0] / s[-1] < 200:
        ctx.probes["badly conditioned sampling skipped"] += 1
        return

    def solve(infer, constit):
        x = [t, u.copy()] + ([v.copy()] if two else [])
        if sc["grid"]:
            x[1][~rec] = np.nan
        else:
            x = [y[rec] for y in x]
        kw = dict(o, lat=lat, epoch="python", constit=constit)
        if infer:
            kw["infer"] = infer
        if o["method"] == "robust":
            kw["robust_kw"] = {"weight_function": "cauchy"}
        ctx.calls["solve"] += 1
        try:
            return utide.solve(*x, **kw)
        except Exception as e:
            ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")

    listed = {"refs": refs, "all": refs + infd, "none": [], "auto": refs}[sc["listed"]] + sc["other"]
    if sc["listed"] == "auto" and sc["span"] < 40 and mode == "arbitrary":
        listed = "auto"
    approx = mode == "approx"
    c = solve(make_infer(sc, approx), listed)
    cp = solve(make_infer(sc, approx, sc["perm"]), listed if isinstance(listed, str) else listed[::-1])
    ctx.log("solved", mode, int(rec.sum()), len(infd))
    ctx.state(rec.tolist(), sc["pairs"], sorted(map(str, o.items())), mode)
    names = list(c["name"])
    if listed != "auto" and sorted(names) != sorted(ordinary + infd):
        ctx.fail("constituents", f"{sorted(names)} instead of {sorted(ordinary + infd)}")
    if len(names) != len(set(names)) or any(n not in names for n in infd + refs):
        ctx.fail("constituents", f"{names} for inferred {infd} from {refs}")
    p, q = st.phasors(c, names, two)
    at = names.index
    size = float(np.abs(p).max() + np.abs(q).max())
    # 1. the prescribed relation holds exactly
    for i, (nm, ref) in enumerate(sc["pairs"]):
        rp, rq = relation(sc, i)
        if abs(p[at(nm)] - rp * p[at(ref)]) > 1e-9 * size or abs(q[at(nm)] - rq * q[at(ref)]) > 1e-9 * size:
            ctx.fail(
                "relation",
                f"{nm} from {ref}: ratios {abs(p[at(nm)] / p[at(ref)]):.6g} {abs(q[at(nm)] / q[at(ref)]):.6g} and lags "
                f"{np.degrees(np.angle(p[at(nm)] / p[at(ref)])):.6g} {np.degrees(np.angle(q[at(nm)] / q[at(ref)])):.6g}, "
                f"prescribed {abs(rp)} {abs(rq)} {np.degrees(np.angle(rp)):.6g} {np.degrees(np.angle(rq)):.6g}",
            )
        ctx.nontrivial = True
        ctx.probes["relations compared"] += 1
    # 2. the order of listing does not matter
    if sorted(cp["name"]) != sorted(names):
        ctx.fail("listing", f"{sorted(cp['name'])} instead of {sorted(names)}")
    pp, qq = st.phasors(cp, names, two)
    lim = (1e-8 if o["method"] == "ols" else 1e-5) * size
    if np.abs(pp - p).max() > lim or np.abs(qq - q).max() > lim:
        j = int(np.argmax(np.abs(pp - p) + np.abs(qq - q)))
        ctx.fail("listing", f"{names[j]} depends on the order of listing: {p[j]:.8g} {pp[j]:.8g} {q[j]:.8g} {qq[j]:.8g}")
    for f in ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci"):
        if f in c:
            x = np.asarray(c[f])
            y = np.asarray(cp[f])[[list(cp["name"]).index(n) for n in names]]
            # a noise-free record leaves rounding errors for residuals
            if mode == "arbitrary" and not np.allclose(x, y, rtol=1e-4, atol=1e-7 * size, equal_nan=True):
                ctx.fail("listing", f"{f} depends on the order of listing: {x} {y}")
    # 3. intervals scale along
    if mode == "arbitrary" and not two and o["conf_int"] == "linear":
        for i, (nm, ref) in enumerate(sc["pairs"]):
            k, j = at(nm), at(ref)
            a = c["A_ci"][k] / (sc["ratios"][i] * c["A_ci"][j])
            b = c["g_ci"][k] / c["g_ci"][j]
            if np.isfinite(c["A_ci"][j]) and not (0.6 < a < 1.7 and 0.6 < b < 1.7):
                ctx.fail("intervals", f"{nm} from {ref}: A_ci {a:.3g} and g_ci {b:.3g} times what the relation gives")
            ctx.probes["interval ratios compared"] += 1
    if mode == "arbitrary":
        return
    # 4. the water's own relation is recovered
    tp, tq = st.phasors(full, ordinary + infd, two)
    gp, gq = st.phasors(c, ordinary + infd, two)
    err = np.maximum(np.abs(gp - tp), np.abs(gq - tq))
    if mode in ("consistent", "donor"):
        lim = 1e-6 * (size + 10) if mode == "consistent" else 0.02 * size
        if not np.all(err <= lim):
            j = int(np.argmax(err))
            ctx.fail("recovery", f"{mode}: {(ordinary + infd)[j]} is off by {err[j]:.3g} (allowed {lim:.2g})")
        ctx.probes[f"recovered ({mode})"] += 1
        return
    # 5. the approximate method removes the contamination of the references
    c1 = solve(None, ordinary)
    p1, q1 = st.phasors(c1, refs, two)
    raw = np.maximum(np.abs(p1 - tp[: len(refs)]), np.abs(q1 - tq[: len(refs)]))
    scale = np.maximum(np.abs(tp[: len(refs)]), np.abs(tq[: len(refs)]))
    before, after = float(np.linalg.norm(raw)), float(np.linalg.norm(err[: len(refs)]))
    if sc["span"] < 14 or before < 0.15 * np.linalg.norm(scale):
        return
    ctx.probes["contaminated references compared"] += 1
    if os.environ.get("DST_RATIOS"):
        print("RATIO", round(after / before, 3), sc["span"], two, o["nodal"], o["phase"], len(refs), len(sc["other"]), before, sc["pairs"])
    if after > (0.6 if len(refs) > 1 or len(sc["other"]) > 1 else 0.2) * before:
        ctx.fail(
            "approximate",
            f"references {refs} contaminated by {raw}, {err[: len(refs)]} left after approximate inference",
        )


def donor(sc, ctx, utide, g):
    """A long-running station measures the relation and crashes; its stored coefficients remain."""
    n = len(sc["pairs"])
    t = sc["start"] + sc["offset_days"] + np.arange(0, 400, 2 / 24)
    names = [p[0] for p in sc["pairs"]] + sc["truth"]["names"]
    full = st.infer_truth(sc["truth"], make_infer(sc))
    u, v = rm.synth(t, t.mean(), full, sc["lat"], True, "Greenwich")
    keep = g.random(len(t)) > 0.2
    keep[0] = keep[-1] = True
    a = [t[keep], u[keep]] + ([v[keep]] if sc["two"] else [])
    ctx.calls["solve"] += 1
    c = utide.solve(*a, lat=sc["lat"], epoch="python", verbose=False, constit=names, conf_int="none")
    stored = pickle.dumps(c)
    ctx.faults["donor station crashed"] += 1
    c = pickle.loads(stored)
    p, q = st.phasors(c, names, sc["two"])
    for i, (nm, ref) in enumerate(sc["pairs"]):
        rp = p[names.index(nm)] / p[names.index(ref)]
        sc["ratios"][i] = float(abs(rp))
        sc["lags"][i] = float(np.degrees(np.angle(rp)))
        if sc["two"]:
            rq = q[names.index(nm)] / q[names.index(ref)]
            sc["ratios"][i + n] = float(abs(rq))
            sc["lags"][i + n] = float(-np.degrees(np.angle(rq)))


def shrink(sc, rep):
    n = len(sc["pairs"])
    if n > 1:
        for i in range(n):
            c = copy.deepcopy(sc)
            ks = [i, i + n] if sc["two"] else [i]
            c["pairs"] = [x for k, x in enumerate(sc["pairs"]) if k != i]
            for f in ("ratios", "lags"):
                c[f] = [x for k, x in enumerate(sc[f]) if k not in ks]
            yield c
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", False), ("phase", "raw"), ("order_constit", None), ("method", "ols"), ("white", True), ("conf_int", "none")):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            yield c
    for k, simple in (("listed", "refs"), ("grid", False)):
        if sc[k] != simple:
            yield {**copy.deepcopy(sc), k: simple}
