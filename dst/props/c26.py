"""
C26  A robust fit is what it reports about itself.

A station fits robustly what it has received, with sensors that err, under a budget of
iterations that may run out at any point.  However it ends, the solution must be the
weighted least-squares fit under the very weights reported, the weights must follow from
the residuals by the named function and tuning constant, and the residual statistics,
leverage and ordinary solution reported with it must be those of the fit.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C26"
COUNTS = {"quick": 420, "thorough": 8000}
LIMIT = 90.0
RULE = (
    "a record received through a lossy gauge with erring sensor, or a general regression, fitted robustly with a drawn "
    "weight function, tuning constant, tolerance and budget of iterations; non-trivial: the weights are not all equal"
)
STATES = "distinct (weight function, loss pattern, iterations made)"
REAL = ["utide.solve, utide.robustfit (unmodified)", "numpy linear algebra"]
STUB = ["ocean, gauge, sensor faults, iteration budget"]
ASSUMPTIONS = [
    "weights multiply the rows of the model (as in the code), so that they enter the sum of squares squared",
    "weights are compared with the function of the residuals where the iteration converged under a small tolerance",
]
TUNE = {"andrews": 1.339, "bisquare": 4.685, "cauchy": 2.385, "fair": 1.4, "huber": 1.345, "logistic": 1.205, "ols": 1.0,
        "talwar": 2.795, "welsch": 2.985}


def wfun(name, r):
    r = np.abs(r)
    s = np.maximum(r, 1e-12)
    return {
        "andrews": lambda: np.where(r < np.pi, np.sin(s) / s, 0.0),
        "bisquare": lambda: np.where(r < 1, (1 - r**2) ** 2, 0.0),
        "cauchy": lambda: 1 / (1 + r**2),
        "fair": lambda: 1 / (1 + r),
        "huber": lambda: 1 / np.maximum(1, r),
        "logistic": lambda: np.tanh(s) / s,
        "ols": lambda: np.ones(len(r)),
        "talwar": lambda: (r < 1).astype(float),
        "welsch": lambda: np.exp(-(r**2)),
    }[name]()


def generate(rng, tier, i):
    wf = rng.choice(list(TUNE))
    sc = {
        "wf": wf,
        "tune": rng.choice([None, None, round(TUNE[wf] * rng.uniform(0.6, 2.5), 3), 1e6]),
        "maxit": rng.choice([1, 2, 3, 5, 10, 50, 300]),
        "tol": rng.choice([1e-3, 1e-3, 1e-6, 1e-9, 0.3]),
        "frac": rng.choice([0, 0.02, 0.06]),
        "mag": round(10 ** rng.uniform(0, 4), 2),
        "noise": rng.choice([0.1, 1.0]),
        "nseed": rng.randrange(1 << 30),
    }
    if rng.random() < 0.35:
        sc["kind"] = "regression"
        sc["n"] = rng.choice([12, 30, 100, 400])
        sc["p"] = rng.choice([1, 1, 2, 3, 5])
        sc["cplx"] = rng.random() < 0.5
        sc["flat"] = sc["p"] == 1 and rng.random() < 0.5
        return sc
    span = rng.choice([3.0, 10.0, 16.0, 31.0, 60.0])
    dt_h = rng.choice([0.5, 1, 1, 2] if span < 60 else [2, 3])
    two = rng.random() < 0.5
    names = st.gen_names(rng, span, dt_h, rng.randint(1, {3.0: 2, 10.0: 4, 16.0: 5, 31.0: 8, 60.0: 10}[span]), None) or ["M2"]
    sc.update(
        kind="station",
        start=float(rng.randint(690000, 750000)),
        span=span,
        dt_h=dt_h,
        two=two,
        truth=st.gen_truth(rng, names, two, True),
        names=names,
        lat=st.gen_lat(rng),
        chan=st.gauge.gen_channel(rng),
        grid=rng.random() < 0.5,
        opts={
            "nodal": rng.choice([True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": rng.choice(["none", "linear"]),
            "white": True,
        },
    )
    return sc


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    kw = {"weight_function": sc["wf"], "tol": sc["tol"], "maxit": sc["maxit"]}
    if sc["tune"] is not None:
        kw["tune"] = sc["tune"]
    if sc["kind"] == "regression":
        X, y, rf = regression(sc, ctx, g, kw)
        b = np.asarray(rf["b"])
        w = np.asarray(rf["w"])
        if b.shape != (X.shape[1],):
            ctx.fail("report", f"{b.shape} coefficients for {X.shape[1]} columns")
        if sc["n"] > 0 and np.linalg.matrix_rank(w[:, None] * X) < X.shape[1]:
            return
        same(ctx, sc, X @ b, weighted(X, y, w), y, "coefficients")
        same(ctx, sc, X @ np.asarray(rf["ols_b"]), weighted(X, y, np.ones(len(y))), y, "ordinary coefficients")
        sv = np.linalg.svd(w[:, None] * X, compute_uv=False)
        if np.shape(rf["s"]) != sv.shape or not np.allclose(np.sort(rf["s"])[::-1], sv, rtol=1e-6, atol=1e-9) or rf["rank"] != len(sv):
            ctx.fail("report", f"singular values {rf['s']}, rank {rf['rank']}; the weighted model has {sv}")
        judge(ctx, sc, X, y, rf, X @ b)
        return
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    two, lat, o = sc["two"], sc["lat"], sc["opts"]
    if rec.sum() < 30:
        return
    tg = t[rec]
    tref = 0.5 * (tg[0] + tg[-1])
    B = rm.design(tg, tref, sc["names"], lat, o["nodal"], o["phase"], o["trend"], tg[-1] - tg[0])
    s = np.linalg.svd(B, compute_uv=False)
    if B.shape[0] < 2 * B.shape[1] or not s[0] / s[-1] < 50:
        ctx.probes["badly conditioned sampling skipped"] += 1
        return
    u, v = rm.synth(t, tref, sc["truth"], lat, True, "Greenwich")
    u = err(sc, ctx, g, u + sc["noise"] * g.standard_normal(len(t)))
    if two:
        v = err(sc, ctx, g, v + sc["noise"] * g.standard_normal(len(t)))
    x = u[rec] + (1j * v[rec] if two else 0)
    if sc["grid"]:
        u, v = np.where(rec, u, np.nan), np.where(rec, v, np.nan) if two else None
        # the reference time of a regular grid is that of the whole grid
        a = t
    else:
        a, u, v = tg, u[rec], v[rec] if two else None
    ctx.calls["solve"] += 1
    try:
        coef = utide.solve(a, u, v, constit=list(sc["names"]), lat=lat, method="robust", robust_kw=kw, epoch="python",
                           verbose=False, **o)
    except Exception as e:
        ctx.fail("unexpected-exception", f"solve: {type(e).__name__}: {e}")
    rf = coef["rf"]
    w = np.asarray(rf["w"])
    if not np.array_equal(w, np.asarray(coef["weights"])):
        ctx.fail("report", "weights and rf.w differ")
    out = utide.reconstruct(tg, coef, epoch="python", verbose=False, min_SNR=0)
    fit = out["u"] + 1j * out["v"] if two else out["h"]
    if w.shape != x.shape:
        ctx.fail("report", f"{w.shape} weights for {len(x)} received samples")
    sv = np.linalg.svd(w[:, None] * B, compute_uv=False)
    if not sv[-1] > 1e-3 * sv[0]:
        ctx.probes["weights leave too little, not judged"] += 1
        return
    best = weighted(B, x, w)
    same(ctx, sc, fit, best if two else best.real, x, "prediction at the received samples")
    judge(ctx, sc, B, x, rf, best if two else best.real)


def regression(sc, ctx, g, kw):
    from utide.robustfit import robustfit

    n, p = sc["n"], sc["p"]
    X = g.standard_normal((n, p)) + (1j * g.standard_normal((n, p)) if sc["cplx"] else 0)
    y = X @ (1.0 + np.arange(p)) + sc["noise"] * (g.standard_normal(n) + (1j * g.standard_normal(n) if sc["cplx"] else 0))
    y = err(sc, ctx, g, y)
    ctx.calls["robustfit"] += 1
    x0, y0 = X.copy(), y.copy()
    try:
        rf = robustfit(X[:, 0] if sc["flat"] else X, y, **kw)
    except Exception as e:
        ctx.fail("unexpected-exception", f"robustfit{' with a vector of one regressor' if sc['flat'] else ''}: {type(e).__name__}: {e}")
    if not (np.array_equal(X, x0) and np.array_equal(y, y0)):
        ctx.fail("report", "the arguments were changed")
    return X, y, rf


def err(sc, ctx, g, x):
    m = int(sc["frac"] * len(x))
    if m:
        k = g.choice(len(x), m, replace=False)
        x = x.copy()
        x[k] += sc["mag"] * g.choice([-1.0, 1.0], m)
        ctx.faults["value corrupted undetected"] += m
    return x


def weighted(X, y, w):
    q, r = np.linalg.qr(w[:, None] * X)
    return X @ np.linalg.solve(r, q.conj().T @ (w * y))


def same(ctx, sc, got, want, y, what):
    size = np.max(np.abs(y)) + 1e-9
    d = np.max(np.abs(got - want))
    if not d <= 2e-6 * size:
        ctx.fail(
            "fit",
            f"{sc['wf']}, at most {sc['maxit']} iterations: {what} differ from the weighted fit under the reported weights by {d:.3g} (of {size:.3g})",
        )


def judge(ctx, sc, X, y, rf, fit):
    n, p = X.shape
    w = np.asarray(rf["w"])
    r = y - fit
    tag = f"{sc['wf']}, maxit {sc['maxit']}, {rf['iterations']} iterations"
    if w.shape != (n,) or w.dtype.kind != "f" or not ((w >= 0) & (w <= 1 + 1e-12)).all():
        ctx.fail("report", f"{tag}: weights are not {n} numbers between 0 and 1")
    if not 1 <= rf["iterations"] <= sc["maxit"]:
        ctx.fail("report", f"{tag}: iterations out of range")
    rms = np.sqrt(np.mean(np.abs(r) ** 2))
    if not np.isclose(rf["rms_resid"], rms, rtol=1e-5, atol=1e-9):
        ctx.fail("report", f"{tag}: rms_resid {rf['rms_resid']}, the residuals of the fit have {rms}")
    ols = weighted(X, y, np.ones(n))
    ro = np.sqrt(np.mean(np.abs(y - ols) ** 2))
    if not np.isclose(rf["ols_rms_resid"], ro, rtol=1e-5, atol=1e-9):
        ctx.fail("report", f"{tag}: ols_rms_resid {rf['ols_rms_resid']}, the ordinary fit has {ro}")
    q, _ = np.linalg.qr(X)
    lev = np.sum(np.abs(q) ** 2, axis=1)
    if not np.allclose(rf["leverage"], lev, atol=1e-6):
        ctx.fail("report", f"{tag}: leverage is not that of the model")
    if rf["weight_function"] != sc["wf"] or rf["tune"] != (sc["tune"] if sc["tune"] is not None else TUNE[sc["wf"]]):
        ctx.fail("report", f"{tag}: reports {rf['weight_function']} {rf['tune']}")
    ctx.nontrivial = bool(np.ptp(w) > 1e-6)
    ctx.state(sc["wf"], n, rf["iterations"])
    ctx.log(sc["wf"], n, int(rf["iterations"]))
    if sc["maxit"] == 1 and np.ptp(w) > 0:
        ctx.fail("fit", f"{tag}: the first fit is the ordinary one, but weights differ")
    if sc["wf"] == "ols" and np.ptp(w) > 0:
        ctx.fail("weights", f"{tag}: weights of ordinary least squares differ")
    tune = rf["tune"]
    z = np.abs(r) / (tune * np.sqrt(np.maximum(1 - lev, 1e-12))) / (np.median(np.abs(r)) / 0.6745)
    want = wfun(sc["wf"], z)
    gap = np.abs(w - want)
    if rf["iterations"] < sc["maxit"] and sc["tol"] <= 1e-6:
        ctx.probes["converged fits whose weights were compared"] += 1
        if not gap.mean() <= 0.15:
            j = int(np.argmax(gap))
            ctx.fail(
                "weights",
                f"{tag}, tune {tune}: weights differ from the function of the residuals by {gap.mean():.2g} on average "
                f"(sample {j}: {w[j]:.3g}, scaled residual {z[j]:.3g} gives {want[j]:.3g})",
            )


    ref = iterate(X, y, sc["wf"], tune, sc["tol"], sc["maxit"])
    if ref is None:
        ctx.probes["a decision of the iteration too close to call"] += 1
        return
    b, w1, its, how = ref
    ctx.probes[f"iteration followed step by step, ended by {how}"] += 1
    if its != rf["iterations"]:
        ctx.fail("iteration", f"{tag}, tune {tune}, tol {sc['tol']}: the documented iteration ends after {its} ({how})")
    if not np.allclose(w, w1, atol=1e-5):
        ctx.fail("iteration", f"{tag}, tune {tune}: weights differ by {np.abs(w - w1).max():.3g} from those of the documented iteration")
    same(ctx, sc, fit, X @ b if np.iscomplexobj(y) else (X @ b).real, y, "values of the documented iteration")


def iterate(X, y, wf, tune, tol, maxit):
    """The iteration as documented -> coefficients, weights, iterations, why it ended; None: too close to call"""
    n = len(y)
    q, _ = np.linalg.qr(X)
    fac = 1 / (tune * np.sqrt(np.maximum(1 - np.sum(np.abs(q) ** 2, axis=1), 1e-12)))
    w = np.ones(n)
    old = None
    for i in range(maxit):
        q, r = np.linalg.qr(w[:, None] * X)
        d = np.abs(np.diag(r))
        if not d.min() > 1e-4 * d.max():
            return None
        b = np.linalg.solve(r, q.conj().T @ (w * y))
        e = y - X @ b
        m = np.sum(np.abs(w * e) ** 2) / w.sum()
        if old is not None:
            gain = (old[2] - m) / old[2]
            if min(abs(gain), abs(gain - tol)) < 1e-9 and wf != "ols" and np.ptp(w) > 1e-9:
                return None
            if np.ptp(w) <= 1e-9:
                return None
            if gain < 0:
                return old[0], old[1], i, "getting worse"
            if gain < tol:
                return b, w, i + 1, "convergence"
        old = b, w, m
        z = np.abs(e) * fac / (np.median(np.abs(e)) / 0.6745)
        if wf == "talwar" and np.abs(z - 1).min() < 1e-7:
            return None
        w = wfun(wf, z)
    return old[0], old[1], maxit, "budget"


def shrink(sc, rep):
    for k, simple in (("frac", 0), ("tune", None), ("maxit", 50), ("tol", 1e-3), ("noise", 0.1), ("grid", False), ("n", 12), ("p", 1)):
        if k in sc and sc[k] != simple and not (k == "p" and sc.get("flat")):
            yield {**copy.deepcopy(sc), k: simple}
    if sc["kind"] == "station":
        for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
            if sc["chan"][k]:
                c = copy.deepcopy(sc)
                c["chan"][k] = simple
                yield c
        for k, simple in (("nodal", False), ("phase", "raw"), ("conf_int", "none")):
            if sc["opts"][k] != simple:
                c = copy.deepcopy(sc)
                c["opts"][k] = simple
                yield c
