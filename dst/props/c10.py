"""
C10  What is sampled of a tide is enough to get the tide back.

The ocean is a known sum of constituents (an independent model of the astronomy).  A
gauge samples it through loss, outages, crashes, clock jitter and drift, duplicates and
late messages; the archive is solved.  The constants, mean and trend of the truth must
come back, and so must the tide at any time, inside or outside the record.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C10"
COUNTS = {"quick": 360, "thorough": 6000}
LIMIT = 120.0
RULE = (
    "one ocean (3-24 constituents of all 144), one lossy gauge, one option set (nodal x "
    "phase x trend x 1-D/2-D x inference x auto/list x order x latitude x epoch); "
    "noise-free (exact recovery) or white noise (within 8 standard errors of an "
    "independent least-squares covariance); non-trivial: samples were lost or late and the "
    "problem as sampled is well conditioned (condition number below 1e4)"
)
STATES = "distinct patterns of received samples"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["ocean (reference model)", "gauge, telemetry and archive (event simulation)"]
ASSUMPTIONS = [
    "the reference time of linearised options is the middle of the record",
    "M7 with Greenwich phases is a known finding and is exercised by its own probe only",
]
M7 = "m7-greenwich-wrap"


def generate(rng, tier, i):
    if i == 0:
        return {"probe": "M7"}
    span = rng.choice([10.0, 16.0, 31.0, 31.0, 60.0, 185.0, 366.0])
    if rng.random() < 0.06:
        span = rng.choice([367.0, 420.0, 550.0, 735.0])
    dt_h = rng.choice([0.5, 1, 1, 1, 2] if span < 61 else [1, 2, 3] if span < 367 else [3, 4, 5])
    two = rng.random() < 0.45
    k = rng.randint(2, {10.0: 4, 16.0: 6, 31.0: 10, 60.0: 14, 185.0: 18, 366.0: 24}.get(span, 24))
    mode = rng.choice(["list", "list", "list", "auto"])
    nodal = rng.choice([True, True, False, "linear_time"])
    phase = rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"])
    trend = rng.random() < 0.7
    rmin = rng.choice([1, 1, 1.3])
    pool = st.COMMON if rng.random() < 0.3 else None
    if mode == "auto":
        # twice as long a record as the criterion needs: well posed
        lim = rmin / (24 * span)
        pool = [n for n, d in zip(rm.NAMES, rm.DF, strict=True) if d >= lim * 1.02]
    names = st.gen_names(rng, span, dt_h, k, pool)
    infer = None
    if mode == "list" and rng.random() < 0.35 and span >= 16 and names:
        refs = rng.sample(names, min(len(names), rng.randint(1, 2)))
        inf, ref = [], []
        free = [n for n in rm.NAMES if n not in names and n not in ("Z0", "M7")]
        for r in refs:
            near = sorted(free, key=lambda n: abs(st.F0[n] - st.F0[r]))[:6]
            for nm in rng.sample(near, rng.randint(1, 2)):
                if nm not in inf:
                    inf.append(nm)
                    ref.append(r)
        m = 2 if two else 1
        infer = {
            "inferred_names": inf,
            "reference_names": ref,
            "amp_ratios": [round(rng.uniform(0.05, 0.5), 3) for _ in inf * m],
            "phase_offsets": [round(rng.uniform(-60, 60), 2) for _ in inf * m],
        }
        if two and rng.random() < 0.5:
            q = len(inf)
            infer["amp_ratios"][q:] = infer["amp_ratios"][:q]
            infer["phase_offsets"][q:] = infer["phase_offsets"][:q]
        if rng.random() < 0.5:
            infer["approximate"] = False
    chan = st.gauge.gen_channel(rng, heavy=rng.random() < 0.2)
    noise = rng.choice([0, 0, 0, 0.02, 0.2])
    ci = rng.choice(["linear", "linear", "none", "none"])
    order = rng.choice([None, "PE", "frequency", "list"] + (["SNR"] if ci != "none" else []))
    arch = rng.choice(["grid", "absent", "absent"])
    if ci == "none" and nodal is True and phase == "Greenwich" and rng.random() < 0.4:
        arch = "arrival"
    return {
        "start": float(rng.randint(660000, 765000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "truth": st.gen_truth(rng, names, two, trend),
        "lat": st.gen_lat(rng),
        "chan": chan,
        "ends": "free" if nodal is True and phase == "Greenwich" and rng.random() < 0.5 else "kept",
        "arch": arch,
        "noise": noise,
        "nseed": rng.randrange(1 << 30),
        "mode": mode,
        "extra": st.gen_names(rng, span, dt_h, rng.choice([0, 0, 1, 3]), None) if mode == "list" else [],
        "infer": infer,
        "epoch": rng.choice(st.EPOCHS),
        "pepoch": rng.choice(st.EPOCHS),
        "comp": rng.choice(["both", "split"]),
        "opts": {
            "nodal": nodal,
            "phase": phase,
            "trend": trend,
            "conf_int": ci,
            "white": rng.random() < 0.5,
            "order_constit": order,
            "Rayleigh_min": rmin,
            "method": "robust" if noise and rng.random() < 0.2 else "ols",
            "verbose": False,
        },
        "psnr": rng.choice([0, 0, 2]),
    }


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    if sc.get("probe") == "M7":
        return probe_m7(utide, ctx)
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    if rec.sum() < 0.3 * len(t):
        return
    two, lat, opts = sc["two"], sc["lat"], sc["opts"]
    arch = sc["arch"]
    if arch == "grid":
        tin = t
        miss = ~rec
    elif arch == "absent":
        tin = t[rec]
        miss = np.zeros(len(tin), bool)
    else:
        order = [k for k in sim["arrivals"]]
        if sc["ends"] == "kept":
            order += [0, len(t) - 1]
        tin = t[order]
        miss = np.zeros(len(tin), bool)
    tg = tin[~miss]
    tref = 0.5 * (tin[0] + tin[-1])
    truth = sc["truth"]
    full = st.infer_truth(truth, sc["infer"]) if sc["infer"] else truth
    u, v = rm.synth(tin, tref, full, lat, opts["nodal"], opts["phase"])
    # the requested constituents
    names = list(truth["names"])
    span_h = 24 * (tin.max() - tin.min())
    if sc["mode"] == "auto":
        lim = opts["Rayleigh_min"] / (24 * (tg.max() - tg.min()))
        lim2 = opts["Rayleigh_min"] / span_h
        want = [n for n, d in zip(rm.NAMES, rm.DF, strict=True) if d >= lim]
        edge = any(min(lim, lim2) * (1 - 1e-9) <= d <= max(lim, lim2) * (1 + 1e-9) for d in rm.DF)
        if edge or any(n not in want for n in names):
            ctx.probes["automatic selection too close to call"] += 1
            return
        constit = "auto"
    else:
        taken = set(full["names"])
        h = sc["span"] * 24
        want = list(names)
        for n in sc["extra"]:
            if n not in taken and all(abs(st.F0[n] - st.F0[m]) * h >= 1.2 for m in full["names"]):
                want.append(n)
        if sc["infer"]:
            want = want + [n for n in sc["infer"]["inferred_names"]]
        constit = list(want)
        if len(names) % 2:
            constit.reverse()
    # conditioning of the problem as sampled
    lor = tin.max() - tin.min()
    ordinary = [n for n in want if not sc["infer"] or n not in sc["infer"]["inferred_names"]]
    B = rm.design(tg, tref, ordinary, lat, opts["nodal"], opts["phase"], opts["trend"], lor)
    if sc["infer"]:
        B = infer_design(B, tg, tref, ordinary, sc, lat)
    if B.shape[0] < B.shape[1] + 12:
        return
    s = np.linalg.svd(B, compute_uv=False)
    cond = s[0] / s[-1]
    if not cond < 1e4:
        ctx.probes["badly conditioned sampling skipped"] += 1
        return
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    if sc["noise"]:
        u = u + sc["noise"] * g.standard_normal(len(u))
        if two:
            v = v + sc["noise"] * g.standard_normal(len(u))
    u = u.copy()
    u[miss & (g.random(len(u)) < (0.5 if sc["comp"] == "split" and two else 2))] = np.nan
    if two:
        v = v.copy()
        v[miss & np.isfinite(u)] = np.nan
    tt, ep = wl.rep_time(tin, sc["epoch"])
    kw = dict(opts, constit=constit, lat=lat, epoch=ep)
    if kw["order_constit"] == "list":
        kw["order_constit"] = sorted(want)
    if sc["infer"]:
        kw["infer"] = copy.deepcopy(sc["infer"])
    if opts["method"] == "robust":
        kw["robust_kw"] = {"weight_function": "cauchy"}
    ctx.calls["solve"] += 1
    try:
        coef = utide.solve(tt, u, v, **kw) if two else utide.solve(tt, u, **kw)
    except Exception as e:
        ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")
    ctx.log("solved", len(tg), len(want), round(float(np.log10(cond)), 1))
    ctx.nontrivial = bool(rec.sum() < len(t) or arch == "arrival")
    # --- names
    if sorted(coef["name"]) != sorted(want):
        ctx.fail(
            "constituents",
            f"asked for {sorted(want)} ({sc['mode']}), got {sorted(coef['name'])}",
        )
    if isinstance(kw["order_constit"], list) and list(coef["name"]) != kw["order_constit"]:
        ctx.fail("constituents", f"order {list(coef['name'])}, asked {kw['order_constit']}")
    # --- frequencies: those of the ephemeris at the reference time
    fr = rm.freqs(coef["aux"]["reftime"])
    fr = np.array([fr[rm.NAMES.index(n)] for n in coef["name"]])
    got = np.asarray(coef["aux"]["frq"], float)
    if got.shape != fr.shape or not np.all(np.abs(got - fr) <= 1e-14):
        ctx.fail("frequencies", f"aux.frq of {list(coef['name'])[:6]} {got[:6]}, the ephemeris has {fr[:6]}")
    # --- constants
    size = max(abs(x) for x in truth.get("A", truth.get("Lsmaj"))) + abs(
        truth.get("mean", 0),
    ) + abs(truth.get("umean", 0)) + abs(truth.get("vmean", 0)) + 1.0
    tol = 3e-9 * cond * size + 2e-7 * size
    p, q = st.phasors(coef, want, two)
    tp, tq = np.zeros(len(want), complex), np.zeros(len(want), complex)
    a, b = st.phasors(full, full["names"], two)
    for n, x, y in zip(full["names"], a, b, strict=True):
        tp[want.index(n)], tq[want.index(n)] = x, y
    lim = np.full(len(want), tol)
    if sc["noise"]:
        std = sc["noise"] * np.sqrt(np.diag(np.linalg.inv(B.conj().T @ B)).real)
        std *= (8.0 if opts["method"] == "ols" else 16.0) * (1.5 if two else 1.0)
        m = len(ordinary)
        sd = np.full(len(want), std[: 2 * m].max())
        for k, n in enumerate(ordinary):
            sd[want.index(n)] = max(std[k], std[m + k])
        lim = lim + sd
    err = np.maximum(np.abs(p - tp), np.abs(q - tq))
    if (err > lim).any() or not np.isfinite(err).all():
        k = int(np.nanargmax(err - lim)) if np.isfinite(err).any() else 0
        nm = want[k]
        j = list(coef["name"]).index(nm)
        got = {x: float(coef[x][j]) for x in ("A", "g", "Lsmaj", "Lsmin", "theta") if x in coef}
        if nm in full["names"]:
            j = full["names"].index(nm)
            tru = {x: full[x][j] for x in ("A", "g", "Lsmaj", "Lsmin", "theta") if x in full}
        else:
            tru = "absent from the ocean"
        ctx.fail("constants", f"{nm}: recovered {got}, truth {tru} (allowed {lim[k]:.2g})")
    # canonical form of what is reported
    gs = np.asarray(coef["g"])
    amp = coef["Lsmaj"] if two else coef["A"]
    if (gs < 0).any() or (gs > 360).any() or (np.asarray(amp) < 0).any():
        ctx.fail("constants", f"phases outside 0..360 or negative amplitudes: {gs} {amp}")
    if two:
        th = np.asarray(coef["theta"])
        if (th < 0).any() or (th > 180).any() or (np.abs(coef["Lsmin"]) > coef["Lsmaj"] + 1e-12).any():
            ctx.fail("constants", f"ellipse parameters not canonical: theta {th}")
    # --- mean and trend, as a line
    x = np.array([tg.min(), tg.max(), tg.max() + lor])
    x0 = coef["aux"]["reftime"]
    for comp, m, sl in (("u", "umean", "uslope"), ("v", "vmean", "vslope")) if two else (
        ("h", "mean", "slope"),
    ):
        line = coef[m] + (coef[sl] * (x - x0) if opts["trend"] else 0.0)
        true = truth[m] + truth[sl] * (x - tref)
        lm = tol * 10
        if sc["noise"]:
            j = 2 * len(ordinary)
            lm += 1.5 * std[j] + (1.5 * std[j + 1] * np.abs(x - tref) / lor if opts["trend"] else 0)
        if not np.all(np.abs(line - true) <= lm):
            ctx.fail(
                "mean-trend",
                f"{comp}: recovered line {line.tolist()}, truth {true.tolist()} (allowed {lm})",
            )
    # --- predictions
    if sc["noise"]:
        return
    g2 = np.random.Generator(np.random.PCG64(sc["nseed"] + 1))
    tp_ = np.concatenate(
        [
            g2.uniform(tg.min(), tg.max(), 12),
            tg.min() - g2.uniform(0, 3 * sc["span"], 6),
            tg.max() + g2.uniform(0, 3 * sc["span"], 6),
            tg.max() + g2.uniform(0, 4000, 3),
        ],
    )
    tp_ = st.msround(tp_)
    tt, ep = wl.rep_time(tp_, sc["pepoch"])
    psnr = sc["psnr"]
    if opts["conf_int"] != "none" and not opts["white"]:
        # the coloured estimate needs free spectral lines near every constituent, below
        # the mean sampling rate; without them there is no interval to select by
        nyq = 0.5 * len(tg) / (24 * lor)
        if sc["span"] < 31 or len(want) > 10 or max(st.F0[n] for n in want) > 0.8 * nyq:
            psnr = 0
    kw = {"epoch": ep, "verbose": False, "min_SNR": psnr}
    ctx.calls["reconstruct"] += 1
    try:
        out = utide.reconstruct(tt, coef, **kw)
    except Exception as e:
        ctx.fail("unexpected-exception", f"reconstruct: {type(e).__name__}: {e}")
    hu, hv = rm.synth(tp_, tref, full, lat, opts["nodal"], opts["phase"])
    slow = np.abs(truth.get("slope", 0)) + np.abs(truth.get("uslope", 0)) + 1
    far = 1 + np.abs(tp_ - tref) / lor
    lim = tol * 40 * len(want) * far * slow
    for k, true in (("u", hu), ("v", hv)) if two else (("h", hu),):
        e = np.abs(out[k] - true)
        if not np.all(e <= lim):
            j = int(np.nanargmax(e / lim)) if np.isfinite(e).any() else 0
            ctx.fail(
                "prediction",
                f"{k} at {tp_[j]:.4f} (record {tg.min():.1f}..{tg.max():.1f}): "
                f"{out[k][j]!r}, truth {true[j]!r} (allowed {lim[j]:.2g})",
            )
    ctx.probes["predictions compared with the ocean"] += len(tp_)
    if sc["infer"]:
        ctx.probes["inferred constituents recovered"] += len(sc["infer"]["inferred_names"])


def infer_design(B, t, tref, names, sc, lat):
    """Columns of reference constituents replaced by reference plus inferred."""
    inf = sc["infer"]
    o = sc["opts"]
    nI = len(inf["inferred_names"])
    E = rm.basis(t, tref, names, lat, o["nodal"], o["phase"])
    I = rm.basis(t, tref, inf["inferred_names"], lat, o["nodal"], o["phase"])
    Ep, Em = E.copy(), E.conj().copy()
    for i, ref in enumerate(inf["reference_names"]):
        k = names.index(ref)
        Rp = inf["amp_ratios"][i] * np.exp(1j * np.deg2rad(inf["phase_offsets"][i]))
        j = nI + i if len(inf["amp_ratios"]) > nI else i
        Rm = inf["amp_ratios"][j] * np.exp(-1j * np.deg2rad(inf["phase_offsets"][j]))
        Ep[:, k] += Rp * I[:, i]
        Em[:, k] += Rm * I[:, i].conj()
    m = len(names)
    return np.hstack([Ep, Em, B[:, 2 * m :]])


def probe_m7(utide, ctx):
    """The one known failure, exactly as recorded; anything else is a new violation."""
    t = 735000 + np.arange(0, 30, 1 / 24)
    out = {}
    for phase in ("Greenwich", "raw"):
        truth = {"names": ["M7"], "A": [1.0], "g": [40.0], "mean": 0.0, "slope": 0.0}
        tref = 0.5 * (t[0] + t[-1])
        h, _ = rm.synth(t, tref, truth, 45.0, False, phase)
        if phase == "Greenwich":
            # the Greenwich argument of M7, continuous in time
            i = rm.INDEX["M7"]
            (j, c), = rm.SHALLOW[i]
            one = np.array([tref])
            v0 = c * rm._v_base(j, one)[0]
            h = np.cos(2 * np.pi * (v0 + 24 * (t - tref) * rm.freqs(tref)[i]) - np.deg2rad(40))
        ctx.calls["solve"] += 1
        coef = utide.solve(
            t, h, lat=45.0, constit=["M7"], nodal=False, phase=phase, conf_int="none",
            epoch="python", verbose=False,
        )
        out[phase] = float(coef["A"][0])
    ctx.log("M7", out)
    if abs(out["raw"] - 1) > 1e-6:
        ctx.fail("constants", f"M7 with raw phases: amplitude {out['raw']} instead of 1")
    if abs(out["Greenwich"] - 1) < 0.02:
        return
    if abs(out["Greenwich"] - M7_WRONG) < 0.002:
        ctx.fail(
            "M7-greenwich",
            f"M7 with Greenwich phases: amplitude {out['Greenwich']:.4f} instead of 1",
            signature=M7,
        )
    ctx.fail("constants", f"M7 with Greenwich phases: amplitude {out['Greenwich']} instead of 1")


M7_WRONG = 0.47024


def shrink(sc, rep):
    if "truth" not in sc:
        return
    tr = sc["truth"]
    used = set((sc["infer"] or {}).get("reference_names", []))
    if sc["infer"]:
        c = copy.deepcopy(sc)
        c["infer"] = None
        yield c
    if sc["extra"]:
        c = copy.deepcopy(sc)
        c["extra"] = []
        yield c
    if len(tr["names"]) > 1:
        for k in range(len(tr["names"])):
            if tr["names"][k] in used:
                continue
            c = copy.deepcopy(sc)
            for x in ("names", "A", "g", "Lsmaj", "Lsmin", "theta"):
                if x in c["truth"]:
                    del c["truth"][x][k]
            yield c
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("nodal", True), ("phase", "Greenwich"), ("order_constit", None), ("method", "ols"), ("conf_int", "none"), ("Rayleigh_min", 1)):
        if sc["opts"][k] != simple:
            c = copy.deepcopy(sc)
            c["opts"][k] = simple
            if c["opts"]["order_constit"] == "SNR":
                c["opts"]["order_constit"] = None
            yield c
    for k, simple in (("noise", 0), ("epoch", "py"), ("pepoch", "py"), ("arch", "absent"), ("ends", "kept"), ("psnr", 0)):
        if sc[k] != simple:
            c = copy.deepcopy(sc)
            c[k] = simple
            yield c
