"""
C32  Requests that mean the same get the same answer.

Clients of one archive write the same request in their own ways: options left out or
given their documented default, positional or by keyword in any order, names in any
sequence type, numbers and flags of Python or numpy, option groups as any mapping,
options that do not apply set to anything.  All of them get the answer that the plainest
notation gets, whatever record the gauge delivered.
"""

import collections
import contextlib
import copy
import io

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl

ID = "C32"
COUNTS = {"quick": 420, "thorough": 9000}
LIMIT = 90.0
RULE = (
    "the record of one lossy gauge, one base request with every option spelled out, 3 clients that rewrite it "
    "(3-8 rewrites each drawn from the notations) and 3 that rewrite a prediction request; "
    "non-trivial: a rewritten request was answered and compared"
)
STATES = "distinct (set of rewrites, option set)"
REAL = ["utide (all modules, unmodified)", "numpy", "pandas"]
STUB = ["ocean (reference model and noise)", "gauge, telemetry and archive (event simulation)", "clients (notations)"]
ASSUMPTIONS = ["documented defaults: the docstrings of solve, reconstruct and robustfit, and default_opts"]
DEFAULTS = {
    "constit": "auto", "order_constit": "PE", "conf_int": "linear", "method": "ols", "trend": True,
    "phase": "Greenwich", "nodal": True, "infer": None, "Rayleigh_min": 1, "white": False, "verbose": True,
    "robust_kw": {"weight_function": "cauchy"},
}
TUNE = {
    "andrews": 1.339, "bisquare": 4.685, "cauchy": 2.385, "fair": 1.400, "huber": 1.345, "logistic": 1.205,
    "ols": 1, "talwar": 2.795, "welsch": 2.985,
}
REWRITES = [
    "omit", "omit", "omit", "none order", "names", "names", "order of names", "auto as list", "flags", "numbers",
    "strings", "infer", "robust", "keywords", "positional", "v none", "irrelevant", "irrelevant",
]
ASKS = ["omit", "omit", "names", "names", "absent names", "irrelevant", "numbers", "all by name", "positional"]


def generate(rng, tier, i):
    span = rng.choice([16.0, 31.0, 31.0, 60.0])
    two = rng.random() < 0.5
    ci = rng.choice(["none", "linear", "linear", "linear", "MC"])
    auto = rng.random() < 0.35
    names = st.gen_names(rng, span, 1, rng.choice([2, 3, 5, 8]), st.COMMON) or ["M2"]
    infer = None
    if ci != "MC" and rng.random() < 0.35:
        free = [n for n in rm.NAMES if n not in names and n not in ("Z0", "M7") and rm.DF[rm.INDEX[n]] < 1 / (24 * span)]
        inf = rng.sample(free, rng.randint(1, 3))
        m = 2 if two else 1
        infer = {
            "inferred_names": inf,
            "reference_names": [rng.choice(["M2", "K1"] if auto else names) for _ in inf],
            "amp_ratios": [round(rng.uniform(0.05, 0.4), 3) for _ in inf * m],
            "phase_offsets": [round(rng.uniform(-90, 90), 2) for _ in inf * m],
            "approximate": rng.random() < 0.3,
        }
    order = ["PE", "PE", "frequency"] + (["SNR"] if ci != "none" else []) + ([] if auto else ["names"])
    return {
        "start": float(rng.randint(690000, 760000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": 1,
        "two": two,
        "truth": st.gen_truth(rng, names, two, True),
        "auto": auto,
        "infer": infer,
        "lat": rng.choice([40.0, -33.0, round(rng.uniform(-80, 80), 3), 2.0]),
        "chan": st.gauge.gen_channel(rng),
        "noise": rng.choice([0.02, 0.2]),
        "nseed": rng.randrange(1 << 30),
        "epoch": rng.choice(["py", "ml", "dt64", "dt64", "ep:1992-03-01"]),
        "grid": rng.random() < 0.5,
        "wf": rng.choice(list(TUNE)),
        "tune": rng.random() < 0.2,
        "opts": {
            "nodal": rng.choice([True, True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.6,
            "conf_int": ci,
            "white": rng.random() < 0.5,
            "order_constit": rng.choice(order),
            "method": "robust" if rng.random() < 0.4 else "ols",
            "Rayleigh_min": rng.choice([1, 1, 1, 0.9, 2]) if auto else 1,
            "verbose": rng.random() < 0.3,
        },
        "clients": [[rng.sample(REWRITES, rng.randint(3, 8)), rng.randrange(1 << 30)] for _ in range(3)],
        "asks": [[rng.sample(ASKS, rng.randint(2, 4)), rng.randrange(1 << 30)] for _ in range(3)],
        "ask": {
            "n": rng.choice([1, 5, 30]),
            "sel": rng.choice(["default", "zero", "snr", "pe", "names"]),
            "rep": rng.choice(["py", "ml", "dt64"]),
        },
    }


def seq(r, x):
    """a sequence of names or numbers in another container"""
    import pandas as pd

    num = len(x) and not isinstance(x[0], str)
    k = r.choice(["list", "tuple", "array", "items", "index"])
    if k == "tuple":
        return tuple(x)
    if k == "array":
        return np.array(x)
    if k == "items":
        return [np.float64(y) if num else np.str_(y) for y in x]
    if k == "index" and not num:
        return pd.Index(x)
    return list(x)


def mapping(r, d, mod):
    items = list(d.items())
    r.shuffle(items)
    k = r.choice(["dict", "ordered", "bunch"])
    return {"dict": dict, "ordered": collections.OrderedDict, "bunch": mod.utilities.Bunch}[k](items)


def rewrite(kinds, r, kw, utide, base, sc):
    """-> (positional arguments after t, u; keywords; is the order of the constituents changed)"""
    kw = copy.deepcopy(kw)
    swapped = False
    o = dict(kw)
    for k in kinds:
        if k == "omit":
            have = [q for q in kw if q in DEFAULTS and plain(kw[q]) == DEFAULTS[q]]
            have += [q for q in ("v", "epoch") if q in kw and kw[q] is None]
            for q in r.sample(have, r.randint(0, len(have))):
                del kw[q]
        elif k == "none order" and isinstance(kw.get("order_constit"), str) and kw["order_constit"] == "PE":
            kw["order_constit"] = None
        elif k == "names":
            for q in ("constit", "order_constit"):
                if q in kw and isinstance(kw[q], list):
                    kw[q] = seq(r, kw[q])
        elif k == "order of names" and isinstance(kw.get("constit"), list) and o["conf_int"] != "MC":
            r.shuffle(kw["constit"])
            swapped = True
        elif k == "auto as list" and isinstance(o["constit"], str) and o["conf_int"] != "MC" and "constit" in kw:
            kw["constit"] = [str(n) for n in base["name"]]
            if o["infer"]:
                kw["constit"] = [n for n in kw["constit"] if n not in o["infer"]["inferred_names"]]
            swapped = True
        elif k == "flags":
            for q in ("nodal", "trend", "white", "verbose"):
                if isinstance(kw.get(q), bool) and r.random() < 0.7:
                    kw[q] = np.bool_(kw[q])
        elif k == "numbers":
            for q in ("lat", "Rayleigh_min"):
                if isinstance(kw.get(q), (int, float)):
                    x = kw[q]
                    kw[q] = r.choice([np.float64(x)] + ([int(x), np.int64(x), float(x)] if x == int(x) else []))
        elif k == "strings":
            for q in ("phase", "conf_int", "method", "nodal", "order_constit", "constit"):
                if isinstance(kw.get(q), str) and r.random() < 0.7:
                    kw[q] = np.str_(kw[q])
        elif k == "infer" and kw.get("infer"):
            inf = dict(kw["infer"])
            if not inf.get("approximate") and r.random() < 0.5:
                inf.pop("approximate", None)
            for q in ("inferred_names", "reference_names", "amp_ratios", "phase_offsets"):
                inf[q] = seq(r, list(inf[q]))
            kw["infer"] = mapping(r, inf, utide)
        elif k == "robust" and kw.get("robust_kw"):
            rk = dict(kw["robust_kw"])
            if "tune" not in rk:
                rk["tune"] = r.choice([None, TUNE[rk["weight_function"]]])
            extra = {"tol": 0.001, "maxit": 50}
            for q in r.sample(sorted(extra), r.randint(0, 2)):
                rk[q] = extra[q]
            kw["robust_kw"] = mapping(r, rk, utide)
        elif k == "keywords":
            items = list(kw.items())
            r.shuffle(items)
            kw = dict(items)
        elif k == "v none" and not sc["two"]:
            kw["v"] = None
        elif k == "irrelevant":
            c = []
            if o["method"] == "ols":
                c.append(("robust_kw", {"weight_function": r.choice(sorted(TUNE)), "maxit": r.randint(1, 9)}))
            if o["conf_int"] == "none":
                c.append(("white", r.random() < 0.5))
            if o["conf_int"] != "MC":
                c.append(("MC_n", r.choice([1, 10, 500])))
            if not isinstance(o["constit"], str):
                c.append(("Rayleigh_min", r.choice([0.5, 3, 20.0])))
            if c:
                q, x = r.choice(c)
                kw[q] = x
    args = []
    if "positional" in kinds:
        if "v" in kw:
            args.append(kw.pop("v"))
            if r.random() < 0.7:
                args.append(kw.pop("lat"))
        elif not sc["two"] and r.random() < 0.5:
            args = [None, kw.pop("lat")]
    return args, kw, swapped


def plain(x):
    if isinstance(x, np.generic):
        return x.item()
    return dict(x) if isinstance(x, dict) else x if isinstance(x, (str, bool, int, float, type(None))) else None if x is None else "?"


def quietly(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        return fn(*a, **kw)


def execute(sc, ctx):
    import random

    from .. import target

    utide = target.load()
    wl.quiet()
    sim = st.run_gauge(sc, ctx)
    t, rec = sim["t"], sim["received"]
    if rec.sum() < 0.5 * len(t):
        return
    two, o = sc["two"], dict(sc["opts"])
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    tr = dict(sc["truth"])
    names = list(tr["names"])
    u, v = rm.synth(t, t.mean(), tr, sc["lat"], True, "Greenwich")
    u = u + sc["noise"] * g.standard_normal(len(t))
    v = v + sc["noise"] * g.standard_normal(len(t)) if two else None
    miss = ~rec
    if not sc["grid"]:
        t, u, miss = t[rec], u[rec], miss[rec]
        v = v[rec] if two else None
    u = np.where(miss, np.nan, u)
    tt, ep = wl.rep_time(t, sc["epoch"])
    kw = dict(o, lat=sc["lat"], epoch=ep, infer=copy.deepcopy(sc["infer"]))
    if o["order_constit"] == "names":
        kw["order_constit"] = names[::-1] + (list(sc["infer"]["inferred_names"]) if sc["infer"] else [])
    kw["constit"] = "auto" if sc["auto"] else list(names)
    kw["robust_kw"] = {"weight_function": sc["wf"] if o["method"] == "robust" else "cauchy"}
    if sc["tune"]:
        kw["robust_kw"]["tune"] = 1.5 * TUNE[kw["robust_kw"]["weight_function"]]
    if two:
        kw["v"] = v
    seed = sc["nseed"] % (1 << 31)

    def ask(args, kw):
        ctx.calls["solve"] += 1
        np.random.seed(seed)
        return quietly(utide.solve, tt, u, *args, **kw)

    try:
        base = ask([], copy.deepcopy(kw))
    except Exception as e:
        if sc["auto"] and sc["infer"]:
            ctx.probes["reference constituent not selected: refused"] += 1
            return
        ctx.fail("unexpected-exception", f"solve, all options given: {type(e).__name__}: {e}")
    for kinds, s in sc["clients"]:
        args, k2, swapped = rewrite(kinds, random.Random(s), kw, utide, base, sc)
        how = f"{kinds}: {show(args, k2)}"
        ctx.log("client", sorted(kinds))
        ctx.state(sorted(kinds), sorted(map(str, o.items())))
        try:
            c = ask(args, k2)
        except Exception as e:
            ctx.fail("refused", f"{how}: {type(e).__name__}: {e}")
        ctx.nontrivial = True
        ctx.probes["rewritten requests compared"] += 1
        for k in kinds:
            ctx.faults["notation: " + k] += 1
        d = same(base, c, swapped)
        if d:
            ctx.fail("answer", f"{how}: {d}; all options given: {show([], kw)}")
    predict(utide, base, sc, t, g, ctx)


def show(args, kw):
    return ", ".join([repr(a)[:30] for a in args] + [f"{k}={v!r}"[:110] for k, v in kw.items() if k != "v"])


def same(a, b, swapped):
    if set(a) != set(b):
        return f"parts {sorted(set(a) ^ set(b))} in one answer only"
    na, nb = list(map(str, a["name"])), list(map(str, b["name"]))
    if sorted(na) != sorted(nb):
        return f"constituents {na} and {nb}"
    if not swapped and na != nb:
        return f"order {na} and {nb}"
    ix = [nb.index(n) for n in na]
    tol = 1e-6 if swapped else 1e-9
    amp = "Lsmaj" if "Lsmaj" in a else "A"
    scale = float(np.max(np.abs(a[amp]))) + 1e-300
    for k in a:
        x, y = a[k], b[k]
        if k in ("name", "aux", "diagn", "rf"):
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return f"{k} has shape {x.shape} and {y.shape}"
        if x.dtype.kind not in "fiu":
            continue
        if x.shape == (len(na),) and k != "weights":
            y = y[ix]
        if k in ("g", "theta"):
            per = 360 if k == "g" else 180
            e = np.abs((x - y + per / 2) % per - per / 2) * np.abs(a[amp] if k == "g" else 1) / scale
            # the orientation of a nearly round or vanishing ellipse is loose
            if k == "theta":
                e = e * np.abs(a["Lsmaj"] - np.abs(a["Lsmin"])) / scale
            bad = e > 1e3 * tol
        else:
            bad = ~np.isclose(x, y, rtol=(1e3 if swapped else 1) * tol, atol=tol * scale, equal_nan=True)
            if swapped and (k.endswith("_ci") or k == "SNR"):
                # only where they are well determined
                bad &= (np.abs(a[amp]) > 1e-3 * scale) & np.isfinite(x)
        if np.any(bad):
            return f"{k}: {x.ravel()[:5]} and {y.ravel()[:5]}"
    for k in ("reftime", "lat"):
        if abs(float(a["aux"][k]) - float(b["aux"][k])) > 1e-9:
            return f"aux.{k}: {a['aux'][k]} and {b['aux'][k]}"
    x, y = np.asarray(a["aux"]["frq"]), np.asarray(b["aux"]["frq"])[ix]
    if not np.allclose(x, y, rtol=1e-12, atol=0):
        return f"aux.frq: {x[:5]} and {y[:5]}"
    return None


def predict(utide, c, sc, t, g, ctx):
    import random

    a = sc["ask"]
    tp = st.msround(g.uniform(t.min() - 20, t.max() + 20, a["n"]))
    tt, ep = wl.rep_time(tp, a["rep"])
    names = [str(n) for n in c["name"]]
    has = sc["opts"]["conf_int"] != "none"
    kw = {"epoch": ep, "verbose": False, "constit": None, "min_SNR": 2, "min_PE": 0}
    if a["sel"] == "zero":
        kw["min_SNR"] = 0
    elif a["sel"] == "snr":
        kw["min_SNR"] = 10
    elif a["sel"] == "pe":
        kw["min_PE"] = 3
    elif a["sel"] == "names":
        kw["constit"] = names[:: 2 if len(names) > 1 else 1]
    ctx.calls["reconstruct"] += 1
    try:
        base = quietly(utide.reconstruct, tt, c, **copy.deepcopy(kw))
    except Exception as e:
        ctx.fail("unexpected-exception", f"reconstruct, all options given: {type(e).__name__}: {e}")
    for kinds, s in sc["asks"]:
        r = random.Random(s)
        k2 = copy.deepcopy(kw)
        everything = kw["constit"] is None and (kw["min_SNR"] == 0 and kw["min_PE"] == 0 or not has)
        for k in kinds:
            if k == "omit":
                dflt = {"verbose": True, "constit": None, "min_SNR": 2, "min_PE": 0, "epoch": None}
                k2["verbose"] = True
                have = [q for q in k2 if q in dflt and not isinstance(k2[q], (list, tuple, np.ndarray, set)) and k2[q] is not None and plain(k2[q]) == dflt[q] or k2[q] is None]
                for q in r.sample(have, r.randint(0, len(have))):
                    del k2[q]
            elif k == "names" and isinstance(k2.get("constit"), list):
                x = list(k2["constit"])
                r.shuffle(x)
                if r.random() < 0.3:
                    x += x[:1]
                k2["constit"] = set(x) if r.random() < 0.2 else seq(r, x)
            elif k == "absent names" and isinstance(k2.get("constit"), list):
                k2["constit"] = k2["constit"] + [n for n in ("SA", "M8", "ETA2", "TAU1") if n not in names]
            elif k == "irrelevant" and kw["constit"] is not None:
                k2["min_SNR"], k2["min_PE"] = r.choice([0, 2, 50.0]), r.choice([0, 1.5, 99])
            elif k == "numbers":
                for q in ("min_SNR", "min_PE"):
                    if q in k2 and k2[q] == int(k2[q]):
                        k2[q] = r.choice([float, np.float64, np.int64])(k2[q])
            elif k == "all by name" and everything:
                x = list(names)
                r.shuffle(x)
                k2["constit"] = x
                everything = False
        args = []
        if "positional" in kinds and "epoch" in k2:
            args.append(k2.pop("epoch"))
            if "verbose" in k2 and r.random() < 0.5:
                args.append(k2.pop("verbose"))
                if "constit" in k2:
                    args.append(k2.pop("constit"))
                    if "min_SNR" in k2 and "min_PE" in k2:
                        args += [k2.pop("min_SNR"), k2.pop("min_PE")]
        how = f"reconstruct, {kinds}: {show(args, k2)}"
        ctx.calls["reconstruct"] += 1
        try:
            out = quietly(utide.reconstruct, tt, c, *args, **k2)
        except Exception as e:
            ctx.fail("refused", f"{how}: {type(e).__name__}: {e}")
        ctx.probes["rewritten predictions compared"] += 1
        for k in kinds:
            ctx.faults["notation of a prediction: " + k] += 1
        for f in ("u", "v") if sc["two"] else ("h",):
            x, y = base[f], out[f]
            size = np.nanmax(np.abs(x)) + 1e-300
            if np.shape(x) != np.shape(y) or not np.allclose(x, y, rtol=0, atol=1e-9 * size, equal_nan=True):
                ctx.fail("prediction", f"{how}: {f} {y[:4]}, all options given ({show([], kw)}): {x[:4]}")


def shrink(sc, rep):
    for k in ("clients", "asks"):
        for i in range(len(sc[k])):
            if len(sc["clients"]) + len(sc["asks"]) > 1:
                d = copy.deepcopy(sc)
                del d[k][i]
                yield d
            for j in range(len(sc[k][i][0])):
                d = copy.deepcopy(sc)
                del d[k][i][0][j]
                yield d
    if sc["infer"]:
        yield {**copy.deepcopy(sc), "infer": None}
    if sc["chan"]["drop"]:
        d = copy.deepcopy(sc)
        d["chan"]["drop"] = 0
        yield d
    if sc["opts"]["method"] == "robust":
        d = copy.deepcopy(sc)
        d["opts"]["method"] = "ols"
        yield d
