"""
C09  Missing samples carry no information.

The simulated telemetry loses samples.  The archive may write the loss down in any of
the accepted ways -- NaN, infinities, masked values over arbitrary garbage, missing in
one velocity component or both, missing times (NaN, masked, NaT) with anything in the
values, or no entry at all.  All must give the same constants.
"""

import copy

import numpy as np

from .. import gauge, refmodel as rm
from .. import workload as wl
from ..compare import diff, snap

ID = "C09"
COUNTS = {"quick": 700, "thorough": 12000}
LIMIT = 90.0
RULE = (
    "one gauge record through a lossy channel, archived in 4-6 different notations of "
    "the same loss and solved with one drawn option set; non-trivial: between 1 sample "
    "and 60% of the record missing and at least two notations compared"
)
STATES = "distinct patterns of received samples"
REAL = ["utide (all modules, unmodified)", "numpy", "numpy.ma", "pandas containers"]
STUB = ["ocean (reference model)", "gauge, telemetry and archive (event simulation)"]
ASSUMPTIONS = [
    "where only values (not times) are missing on a uniform time grid, deletion changes "
    "the spectral estimate by design: full equality is then required only for white or "
    "non-uniform sampling, point estimates and predictions otherwise"
]
GARBAGE = [0.0, 1e20, -999.0, float("nan"), float("inf"), 12345.678]


def generate(rng, tier, i):
    span = rng.choice([8.0, 16.0, 20.0, 30.0])
    two = rng.random() < 0.5
    dt_h = rng.choice([1, 1, 2])
    names = rng.sample([x for x in wl.names_for(span) if x != "M8" or dt_h == 1], rng.randint(2, 4))
    chan = gauge.gen_channel(rng, heavy=rng.random() < 0.3)
    if rng.random() < 0.6:
        chan["jitter"] = 0  # a uniform grid exercises the "gappy" path
        chan["drift"] = 0
    if not chan["drop"] and not chan["outages"] and not chan["crashes"]:
        chan["drop"] = 0.05
    opts = wl.gen_opts(
        rng,
        {"n": int(span * 24 / dt_h) + 1, "dt": dt_h / 24, "two": two},
        auto=True,
    )
    if opts["constit"] != "auto":
        opts["constit"] = list(dict.fromkeys([*names, *(["S2", "K1"] if "infer" in opts else [])]))
        if isinstance(opts.get("order_constit"), list):
            opts.pop("order_constit")
    return {
        "start": float(rng.randint(725000, 740000)),
        "dt_h": dt_h,
        "n": int(span * 24 / dt_h) + 1,
        "two": two,
        "names": names,
        "chan": chan,
        "ends": rng.choice(["kept", "kept", "free"]),
        "sigma": rng.choice([0.05, 0.2]),
        "nseed": rng.randrange(1 << 30),
        "opts": opts,
        "garbage": [rng.choice(GARBAGE) for _ in range(3)],
        "variants": rng.sample(VALUE_KINDS, 3) + rng.sample(TIME_KINDS, 2),
        "comp": rng.choice(["both", "u", "v", "mixed"]),
        "trep": rng.choice(["py", "py", "ml", "ep:1992-03-01", "dt64"]),
    }


VALUE_KINDS = ["nan", "inf", "-inf", "ma-nan", "ma-garbage", "ma-inf", "list", "mixed", "series"]
TIME_KINDS = ["t-nan", "t-inf", "t-ma", "t-ma-nan", "t-nat", "t+u"]


def _put(x, miss, kind, gb, g):
    y = x.copy()
    if kind in ("nan", "list", "series"):
        y[miss] = np.nan
    elif kind in ("inf", "-inf"):
        y[miss] = float(kind)
    elif kind == "mixed":
        y[miss] = g.choice([np.nan, np.inf, -np.inf], int(miss.sum()))
        half = miss & (g.random(len(y)) < 0.5)
        z = np.ma.array(y, mask=half)
        z.data[half] = gb
        return z
    elif kind.startswith("ma"):
        y[miss] = {"ma-nan": np.nan, "ma-garbage": gb, "ma-inf": np.inf}[kind]
        return np.ma.array(y, mask=miss.copy(), fill_value=-5.0)
    if kind == "list":
        return y.tolist()
    if kind == "series":
        import pandas as pd

        return pd.Series(y)
    return y


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    dt = sc["dt_h"] / 24
    sim = gauge.run(sc["start"], dt, sc["n"], sc["chan"], ctx)
    t, rec = sim["t"], sim["received"].copy()
    # times to the millisecond, so that every notation of time is exact
    t = np.round(t * 86400e3) / 86400e3
    if sc["ends"] == "kept":
        rec[0] = rec[-1] = True
    miss = ~rec
    nm = int(miss.sum())
    if nm == 0 or nm > 0.6 * sc["n"]:
        return
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    h = 24 * (t - sc["start"])
    u = 0.3 + sc["sigma"] * g.standard_normal(sc["n"])
    v = -0.1 + sc["sigma"] * g.standard_normal(sc["n"]) if sc["two"] else None
    for k, nme in enumerate(sc["names"]):
        w = 2 * np.pi * wl.FREQ[nme] * h
        u = u + (1.0 + 0.3 * k) * np.cos(w - 0.7 * k)
        if v is not None:
            v = v + 0.6 * (1.0 + 0.2 * k) * np.sin(w - 0.2 * k)
    lat = sc["opts"]["lat"]

    def solve(tt, uu, vv, epoch):
        ctx.calls["solve"] += 1
        kw = copy.deepcopy(sc["opts"])
        kw["epoch"] = epoch
        try:
            return utide.solve(tt, uu, **kw) if vv is None else utide.solve(tt, uu, vv, **kw)
        except Exception as e:
            return ("err", f"{type(e).__name__}: {e}")

    # in a velocity record a sample is missing when either component is
    mu = miss.copy()
    mv = miss.copy()
    if sc["two"] and sc["comp"] != "both":
        if sc["comp"] == "u":
            mv[:] = False
        elif sc["comp"] == "v":
            mu[:] = False
        else:
            half = g.random(sc["n"]) < 0.5
            mu, mv = miss & half, miss & ~half
    trep = sc["trep"]
    t0, ep = wl.rep_time(t, trep)
    # A: every notation of missing values
    results = {}
    ref = ref_name = None
    for kind in [x for x in sc["variants"] if not x.startswith("t")]:
        for comp in (["both", "split"] if sc["two"] and sc["comp"] != "both" else ["both"]):
            uu = _put(u, mu if comp == "split" else miss, kind, sc["garbage"][0], g)
            vv = None
            if sc["two"]:
                vv = _put(v, mv if comp == "split" else miss, kind, sc["garbage"][1], g)
            ttx = t0.copy() if hasattr(t0, "copy") else t0
            got = solve(ttx, uu, vv, ep)
            name = f"{kind}/{comp}"
            results[name] = got
            ctx.faults[f"loss written as {kind}"] += 1
            ctx.log(name, isinstance(got, tuple))
            if ref is None:
                ref, ref_name = got, name
                continue
            _same(ctx, "value-notation", name, got, ref_name, ref, full=True)
    # B: missing times, whatever the values; against no entry at all
    keep = ~miss
    td, epd = wl.rep_time(t[keep], trep)
    gone = solve(td, u[keep], v[keep] if sc["two"] else None, epd)
    for kind in [x for x in sc["variants"] if x.startswith("t")]:
        tt, ept = _times(t, miss, kind, trep, sc["garbage"][2])
        uu = u.copy()
        vv = v.copy() if sc["two"] else None
        uu[miss] = g.choice([0.0, 1e6, np.nan], nm)
        if kind == "t+u":
            uu = np.ma.array(uu, mask=miss & (g.random(sc["n"]) < 0.5))
        if vv is not None:
            vv[miss] = g.choice([0.0, -1e6, np.inf], nm)
        got = solve(tt, uu, vv, ept)
        ctx.faults[f"loss written as {kind}"] += 1
        ctx.log(kind, isinstance(got, tuple))
        _same(ctx, "time-notation", kind, got, "no entry", gone, full=True)
    # C: missing values against no entry at all
    ctx.nontrivial = True
    if isinstance(ref, tuple) or isinstance(gone, tuple):
        if isinstance(ref, tuple) != isinstance(gone, tuple) and rec[0] and rec[-1]:
            ctx.fail("deletion", f"missing values: {_sh(ref)}; no entries: {_sh(gone)}")
        return
    uniform = not sc["chan"]["jitter"]
    white = sc["opts"].get("white", False) or sc["opts"]["conf_int"] == "none"
    if rec[0] and rec[-1]:
        # a drifting but jitter-free clock is uniform too
        _same(
            ctx,
            "deletion",
            f"missing values ({ref_name})",
            ref,
            "no entries",
            gone,
            full=white or not uniform,
        )
    if sc["opts"].get("nodal", True) is not True or sc["opts"].get("phase", "Greenwich") != (
        "Greenwich"
    ):
        return
    if sc["opts"]["constit"] == "auto" or sc["opts"].get("method") == "robust":
        if not (rec[0] and rec[-1]):
            return
    if (sc["opts"].get("infer") or {}).get("approximate"):
        return
    # predictions agree even when an end of the record is missing
    tp = t[:: max(1, sc["n"] // 40)]
    pa = utide.reconstruct(tp, ref, epoch="python", verbose=False, min_SNR=0)
    pb = utide.reconstruct(tp, gone, epoch="python", verbose=False, min_SNR=0)
    ctx.calls["reconstruct"] += 2
    for k in ("h", "u", "v"):
        if k in pa:
            d = float(np.max(np.abs(pa[k] - pb[k])))
            if not d < 1e-6:
                ctx.fail("deletion", f"prediction {k} differs by {d:.3g} from that without entries")
    _ = lat


def _times(t, miss, kind, trep, gb):
    if kind == "t-nat":
        tt = t.copy()
        tt[miss] = np.nan
        return wl.rep_time(tt, "dt64")
    rep = trep if trep != "dt64" else "py"
    tt, ep = wl.rep_time(t, rep)
    if kind in ("t-nan", "t+u"):
        tt[miss] = np.nan
    elif kind == "t-inf":
        tt[miss] = np.inf
    elif kind == "t-ma":
        tt[miss] = gb
        tt = np.ma.array(tt, mask=miss.copy())
    elif kind == "t-ma-nan":
        tt[miss] = np.nan
        tt = np.ma.array(tt, mask=miss.copy())
    return tt, ep


def _sh(x):
    return x[1] if isinstance(x, tuple) else "result"


POINT = ("A", "g", "Lsmaj", "Lsmin", "theta", "mean", "slope", "umean", "vmean", "uslope", "vslope", "name", "weights")


def _same(ctx, cls, na, a, nb, b, full):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, tuple) != isinstance(b, tuple):
            ctx.fail(cls, f"{na}: {_sh(a)}; {nb}: {_sh(b)}")
        return
    sa, sb = strip(snap(a)), strip(snap(b))
    if not full:
        # order may be by SNR: compare by name
        oa, ob = np.argsort(list(a["name"])), np.argsort(list(b["name"]))
        if list(a["name"][oa]) != list(b["name"][ob]):
            ctx.fail(cls, f"{na} has {list(a['name'])}, {nb} has {list(b['name'])}")
        out = []
        for k in POINT:
            if k in a:
                x, y = np.asarray(a[k]), np.asarray(b[k])
                if k in ("A", "g", "Lsmaj", "Lsmin", "theta"):
                    x, y = x[oa], y[ob]
                if k != "name":
                    diff(x, y, rtol=1e-7, atol=1e-7, path=k, out=out)
        if out:
            ctx.fail(cls, f"{na} versus {nb}: {out[:4]}")
        return
    d = diff(sa, sb, rtol=1e-7, atol=1e-7)
    if d:
        ctx.fail(cls, f"{na} versus {nb}: {d[:4]}")


def strip(s):
    """without the record of options and of how the times were given"""
    s = dict(s)
    s["items"] = {k: v for k, v in s["items"].items()}
    aux = s["items"].get("aux")
    if aux:
        aux = {**aux, "items": {k: v for k, v in aux["items"].items() if k != "opt"}}
        s["items"]["aux"] = aux
    return s


def shrink(sc, rep):
    for k in range(len(sc["variants"])):
        if len(sc["variants"]) > 1:
            c = copy.deepcopy(sc)
            del c["variants"][k]
            yield c
    o = sc["opts"]
    for k in ("infer", "method", "order_constit", "Rayleigh_min", "white", "trend", "phase", "nodal"):
        if k in o:
            c = copy.deepcopy(sc)
            c["opts"].pop(k)
            c["opts"].pop("robust_kw", None) if k == "method" else None
            yield c
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    if sc["trep"] != "py":
        c = copy.deepcopy(sc)
        c["trep"] = "py"
        yield c
    if sc["comp"] != "both":
        c = copy.deepcopy(sc)
        c["comp"] = "both"
        yield c


_ = rm
