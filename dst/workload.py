"""
Workloads: JSON-able descriptions of calls to the public API, and their execution.

A call ("op") is either
  {"id": k, "op": "solve", "rec": RECORD, "rep": REP, "opts": {...}, "np_seed": s}
  {"id": k, "op": "recon", "src": k0, "t": TSPEC, "kw": {...}}
  {"id": k, "op": "bad", "how": name, "rec": ..., ...}      (a call that must fail)
Everything is rebuilt from the description alone, so a scenario file replays.
"""

import copy
import datetime

import numpy as np

from . import refmodel as rm
from .compare import snap
from .core import HarnessError

UNIX = 719163

# constituents that a record of the given length (days) separates
TIERS = [
    (2.0, ["M2", "M4", "M6", "K1", "M3", "M8"]),
    (15.0, ["M2", "S2", "K1", "O1", "M4", "MS4", "M6", "M3", "2MS6"]),
    (29.0, ["M2", "S2", "N2", "K1", "O1", "M4", "MS4", "MN4", "M6", "Q1", "M3", "MSF"]),
]


def names_for(span):
    out = TIERS[0][1]
    for lim, names in TIERS:
        if span >= lim:
            out = names
    return out


# ------------------------------------------------------------------ records
def gen_record(rng, span=None, two=None, dt_h=None, noise=None):
    dt_h = dt_h or rng.choice([1, 1, 1, 2, 0.5])
    span = span or rng.choice([8.0, 15.5, 16.0, 20.0, 30.0])
    n = int(span * 24 / dt_h) + 1
    two = rng.random() < 0.4 if two is None else two
    nc = rng.randint(2, 4)
    names = rng.sample(names_for(span), nc)
    return {
        "start": float(rng.randint(720000, 745000)) + rng.choice([0.0, 0.25, 0.5]),
        "dt": dt_h / 24.0,
        "n": n,
        "names": names,
        "amps": [round(rng.uniform(0.2, 2.0), 3) for _ in names],
        "phs": [round(rng.uniform(0, 360), 2) for _ in names],
        "mean": round(rng.uniform(-2, 2), 3),
        "slope": round(rng.uniform(-0.01, 0.01), 5),
        "two": two,
        "noise": noise if noise is not None else rng.choice([0.05, 0.1, 0.3]),
        "nseed": rng.randrange(1 << 30),
        "jitter": 0.0 if rng.random() < 0.6 else 0.02,
        "drops": [],
        "nans": [],
    }


def add_gaps(rng, rec, kinds=("drops", "nans"), lo=1, hi=3):
    n = rec["n"]
    for _ in range(rng.randint(lo, hi)):
        a = rng.randint(2, n - 12)
        b = a + rng.randint(1, 8)
        rec[rng.choice(list(kinds))].append([a, b])
    return rec


def build_record(rec):
    """-> t (days, python epoch), u, v or None, miss (bool)"""
    n, dt = rec["n"], rec["dt"]
    g = np.random.Generator(np.random.PCG64(rec["nseed"]))
    k = np.arange(n)
    t = rec["start"] + k * dt
    if rec["jitter"]:
        j = g.uniform(-1, 1, n) * rec["jitter"] * dt
        j[0] = j[-1] = 0
        # whole milliseconds, so every time representation is exact
        t = t + np.round(j * 86400e3) / 86400e3
    t = np.round(t * 86400e3) / 86400e3
    for i in rec.get("nudge", []):  # interior times moved, end points kept
        t[i] += 0.3 * dt
    hours = 24.0 * (t - rec["start"])
    u = np.full(n, rec["mean"]) + rec["slope"] * (t - rec["start"])
    v = np.full(n, -0.5 * rec["mean"]) if rec["two"] else None
    for nm, A, p in zip(rec["names"], rec["amps"], rec["phs"], strict=True):
        w = 2 * np.pi * FREQ[nm] * hours
        u = u + A * np.cos(w - np.deg2rad(p))
        if v is not None:
            v = v + 0.6 * A * np.cos(w - np.deg2rad(p) - 0.7)
    u = (u + rec["noise"] * g.standard_normal(n)) * rec.get("scale", 1.0)
    if v is not None:
        v = v + rec["noise"] * g.standard_normal(n)
    keep = np.ones(n, bool)
    for a, b in rec.get("drops", []):
        keep[a:b] = False
    miss = np.zeros(n, bool)
    for a, b in rec.get("nans", []):
        miss[a:b] = True
    t, u, miss = t[keep], u[keep], miss[keep]
    if v is not None:
        v = v[keep]
    if rec.get("wild"):
        return go_wild(rec, g, t, u, v, miss)
    return t, u, v, miss


# records no sensor in order would deliver: what such a call returns is not judged, only
# what it does to its surroundings
WILD = ["few", "one", "constant", "zero", "huge", "tiny", "twice", "unsorted", "sametime", "inf", "backwards", "mostly"]


def go_wild(rec, g, t, u, v, miss):
    w, n = rec["wild"], len(t)
    x = [y for y in (u, v) if y is not None]
    if w in ("few", "one"):
        k = 1 if w == "one" else 2 + rec["nseed"] % 12
        t, miss, x = t[:k], miss[:k], [y[:k] for y in x]
    elif w == "constant":
        x = [np.full(n, 3.25) for y in x]
    elif w == "zero":
        x = [np.zeros(n) for y in x]
    elif w == "huge":
        x = [y * 1e150 for y in x]
    elif w == "tiny":
        x = [y * 1e-200 for y in x]
    elif w == "twice":
        t = np.repeat(t[::2], 2)[:n]
        x = [y[: len(t)] for y in x]
        miss = miss[: len(t)]
    elif w == "unsorted":
        p = g.permutation(n)
        t, miss, x = t[p], miss[p], [y[p] for y in x]
    elif w == "sametime":
        t = np.full(n, t[0])
    elif w == "inf":
        x = [np.where(np.arange(n) % 17 == 3, np.inf, y) for y in x]
    elif w == "backwards":
        t, miss, x = t[::-1].copy(), miss[::-1].copy(), [y[::-1].copy() for y in x]
    elif w == "mostly":
        miss = np.arange(n) % 40 != 7
    return t, x[0], x[1] if len(x) > 1 else None, miss


def wildify(rng, s):
    s["rec"]["wild"] = rng.choice(WILD)
    s["wild"] = True
    return s


FREQ = dict(zip(rm.NAMES, rm.freqs(730000.0), strict=True))


# ----------------------------------------------------------- representations
T_REPS = ["py", "ml", "ep:1992-03-01", "dt64", "dt64ns", "pydt", "pdidx", "pdser"]
U_REPS = ["arr", "list", "tuple", "ma", "ser", "strided", "ro"]


def rep_time(t, kind):
    """-> (object, epoch)"""
    if kind == "py":
        return t.copy(), "python"
    if kind == "pylist":
        return t.tolist(), "python"
    if kind == "pytuple":
        return tuple(t.tolist()), "python"
    if kind == "ml":
        return t + 366, "matlab"
    if kind.startswith("ep:") or kind.startswith("epd:") or kind.startswith("epdt:"):
        d = kind.split(":", 1)[1]
        day, _, clock = d.partition("T")
        y, m, dd = (int(x) for x in day.split("-"))
        hh, mi = (int(x) for x in clock.split(":")) if clock else (0, 0)
        ofs = rm.day_number(y, m, dd) + (hh + mi / 60) / 24
        e = d
        if kind.startswith("epd:"):
            e = datetime.date(y, m, dd)
        elif kind.startswith("epdt:"):
            e = datetime.datetime(y, m, dd, hh, mi)
        return t - ofs, e
    good = np.isfinite(t)
    ms = np.zeros(len(t), np.int64)
    ms[good] = np.round((t[good] - UNIX) * 86400e3).astype(np.int64)
    d = ms.astype("datetime64[ms]")
    d[~good] = np.datetime64("NaT")
    if kind == "dt64":
        return d, None
    if kind == "dt64ns":
        return d.astype("datetime64[ns]"), None
    if kind == "dt64us":
        return d.astype("datetime64[us]"), None
    if kind == "pydt":
        return d.astype(object).tolist(), None
    if kind == "pydta":
        return d.astype(object), None
    if kind in ("pdidx", "pdser"):
        import pandas as pd

        ix = pd.DatetimeIndex(d.astype("datetime64[ns]"))
        if kind == "pdidx":
            return ix, None
        return pd.Series(ix, index=np.arange(len(ix)) + 7), None
    raise HarnessError(f"time representation {kind}")


def rep_vals(x, miss, kind):
    if x is None:
        return None
    y = x.copy()
    if miss is not None and miss.any():
        if kind == "ma":
            y[miss] = 1e20
            return np.ma.array(y, mask=miss.copy())
        y[miss] = np.nan
    if kind == "arr":
        return y
    if kind == "list":
        return y.tolist()
    if kind == "tuple":
        return tuple(y.tolist())
    if kind == "ma":
        return np.ma.array(y)
    if kind == "ser":
        import pandas as pd

        return pd.Series(y, index=np.arange(len(y)) + 3)
    if kind == "strided":
        buf = np.full(2 * len(y), 7.25)
        buf[::2] = y
        return buf[::2]
    if kind == "ro":
        y.setflags(write=False)
        return y
    raise HarnessError(f"value representation {kind}")


# ------------------------------------------------------------------ options
def gen_opts(rng, rec, mc=False, robust=True, auto=True):
    span = rec["n"] * rec["dt"]
    names = names_for(span)
    o = {"verbose": False}
    if auto and rec["dt"] < 1.5 / 24 and rng.random() < 0.2:
        o["constit"] = "auto"
        if rng.random() < 0.4:
            o["Rayleigh_min"] = rng.choice([0.9, 1.0, 1.1])
    else:
        most = len(names) if rng.random() < 0.12 else rng.randint(2, 5)
        o["constit"] = rng.sample(names, min(len(names), most))
    o["lat"] = round(rng.choice([-1, 1]) * rng.uniform(0, 70), 2)
    o["conf_int"] = rng.choice(["linear", "linear", "none"])
    if mc:
        o["conf_int"] = "MC"
    if rng.random() < 0.4:
        o["white"] = rng.choice([True, False])
    if rng.random() < 0.5:
        o["nodal"] = rng.choice([True, False, "linear_time"])
    if rng.random() < 0.5:
        o["phase"] = rng.choice(["Greenwich", "linear_time", "raw"])
    if rng.random() < 0.4:
        o["trend"] = rng.choice([True, False])
    if robust and rng.random() < 0.25:
        o["method"] = "robust"
        if rng.random() < 0.6:
            o["robust_kw"] = {
                "weight_function": rng.choice(["cauchy", "huber", "bisquare", "welsch"]),
            }
            if rng.random() < 0.4:
                o["robust_kw"]["tune"] = rng.choice([2.0, 3.0])
            # stopping early is an answer too
            if rng.random() < 0.4:
                o["robust_kw"]["maxit"] = rng.choice([2, 3, 5, 200])
            if rng.random() < 0.2:
                o["robust_kw"]["tol"] = rng.choice([0.0001, 0.01, 0.2])
    if rng.random() < 0.4:
        ch = ["PE", "frequency"]
        if o["conf_int"] != "none":
            ch.append("SNR")
        o["order_constit"] = rng.choice(ch)
        if o["constit"] != "auto" and rng.random() < 0.3:
            o["order_constit"] = list(reversed(o["constit"]))
    if not mc and span >= 15 and o["constit"] != "auto" and rng.random() < 0.25:
        if not isinstance(o.get("order_constit"), list):
            o["constit"] = [c for c in o["constit"] if c not in ("K2", "P1", "S2", "K1")]
            o["constit"] += ["S2", "K1"]
            m = 2 if rec["two"] else 1
            o["infer"] = {
                "inferred_names": ["K2", "P1"],
                "reference_names": ["S2", "K1"],
                "amp_ratios": [0.27, 0.33] * m,
                "phase_offsets": [10.0, -5.0] * m,
                "approximate": rng.random() < 0.3,
            }
    return o


def gen_solve(rng, mc=False, two=None, gaps=True, reps=True, **kw):
    rec = gen_record(rng, two=two)
    if gaps and rng.random() < 0.5:
        add_gaps(rng, rec)
    rep = {"t": "py", "u": "arr"}
    if reps and rng.random() < 0.5:
        rep = {"t": rng.choice(T_REPS), "u": rng.choice(U_REPS)}
    return {
        "op": "solve",
        "rec": rec,
        "rep": rep,
        "opts": gen_opts(rng, rec, mc=mc, **kw),
        "np_seed": rng.randrange(1 << 31) if mc else None,
    }


def gen_tspec(rng, rec, n=None):
    span = rec["n"] * rec["dt"]
    return {
        "start": rec["start"] + round(rng.uniform(-5, span), 3),
        "dt": rng.choice([1 / 24, 0.5 / 24, 0.1]),
        "n": n or rng.choice([1, 2, 7, 30, 60]),
        "rep": rng.choice(["py", "py", "dt64", "ml", "ep:1992-03-01"]),
        "nans": [],
    }


def build_tspec(ts):
    t = ts["start"] + ts["dt"] * np.arange(ts["n"])
    t = np.round(t * 86400e3) / 86400e3
    for i in ts.get("nudge", []):
        if i < len(t):
            t[i] += 0.4 * ts["dt"]
    for i in ts.get("nans", []):
        if i < len(t):
            t[i] = np.nan
    return t


def gen_recon(rng, src_op, src_id):
    kw = {"verbose": False}
    r = rng.random()
    if r < 0.25:
        kw["min_SNR"] = rng.choice([0, 1, 5, 20])
    elif r < 0.4:
        kw["min_PE"] = rng.choice([0, 1, 10])
    elif r < 0.6 and src_op["opts"]["constit"] != "auto":
        c = src_op["opts"]["constit"]
        kw["constit"] = rng.sample(c, rng.randint(1, len(c)))
    return {"op": "recon", "src": src_id, "t": gen_tspec(rng, src_op["rec"]), "kw": kw}


# ------------------------------------------------------ near-collision siblings
def _m_lat_sign(rng, s):
    s["opts"]["lat"] = -s["opts"]["lat"] or 33.0


def _m_lat_small(rng, s):
    s["opts"]["lat"] = round(s["opts"]["lat"] + rng.choice([0.004, 0.05, 0.3, -0.3]), 4)


def _m_lat_big(rng, s):
    s["opts"]["lat"] = round(rng.choice([-1, 1]) * rng.uniform(6, 70), 2)


def _m_lat_type(rng, s):
    s["opts"]["lat"] = int(s["opts"]["lat"])


def _m_start(rng, s):
    s["rec"]["start"] += rng.choice([1.0, 0.25, 365.0, 3397.0, -6800.0])


def _m_dt(rng, s):
    s["rec"]["dt"] = s["rec"]["dt"] * rng.choice([0.99, 1.01, 1.05])


def _m_interior(rng, s):
    n = s["rec"]["n"]
    s["rec"]["nudge"] = sorted(rng.sample(range(2, n - 2), min(5, n - 4)))


def _m_gap(rng, s):
    add_gaps(rng, s["rec"], kinds=[rng.choice(["drops", "nans"])])


def _m_gap_move(rng, s):
    rec = s["rec"]
    if not rec["drops"] and not rec["nans"]:
        return _m_gap(rng, s)
    for k in ("drops", "nans"):
        for x in rec[k]:
            w = x[1] - x[0]
            x[0] = rng.randint(2, rec["n"] - 12)
            x[1] = x[0] + w
    return None


def _m_values(rng, s):
    s["rec"]["nseed"] = rng.randrange(1 << 30) if not s["rec"]["jitter"] else s["rec"]["nseed"]
    s["rec"]["amps"] = [round(a * rng.uniform(0.5, 1.5), 3) for a in s["rec"]["amps"]]


def _m_scale(rng, s):
    s["rec"]["scale"] = rng.choice([2.0, -1.0, 0.5])


def _m_phase_vals(rng, s):
    s["rec"]["phs"] = [round(rng.uniform(0, 360), 2) for _ in s["rec"]["phs"]]


def _m_constit(rng, s):
    c = s["opts"]["constit"]
    names = names_for(s["rec"]["n"] * s["rec"]["dt"])
    inf = s["opts"].get("infer")
    pinned = set(inf["reference_names"]) if inf else set()
    if c == "auto" or isinstance(s["opts"].get("order_constit"), list):
        s["opts"]["constit"] = rng.sample(names, min(3, len(names)))
        s["opts"].pop("order_constit", None)
        s["opts"].pop("infer", None)
        return
    other = [x for x in names if x not in c]
    free = [k for k, x in enumerate(c) if x not in pinned]
    if other and free:
        c[rng.choice(free)] = rng.choice(other)


def _m_constit_perm(rng, s):
    c = s["opts"]["constit"]
    if isinstance(c, list):
        c.reverse()


def _m_nodal(rng, s):
    cur = s["opts"].get("nodal", True)
    s["opts"]["nodal"] = rng.choice([x for x in (True, False, "linear_time") if x != cur])


def _m_phase(rng, s):
    cur = s["opts"].get("phase", "Greenwich")
    s["opts"]["phase"] = rng.choice(
        [x for x in ("Greenwich", "linear_time", "raw") if x != cur],
    )


def _m_trend(rng, s):
    s["opts"]["trend"] = not s["opts"].get("trend", True)


def _m_white(rng, s):
    s["opts"]["white"] = not s["opts"].get("white", False)


def _m_conf(rng, s):
    if s["opts"].get("order_constit") == "SNR":
        s["opts"].pop("order_constit")
    s["opts"]["conf_int"] = "none" if s["opts"]["conf_int"] != "none" else "linear"


def _m_order(rng, s):
    s["opts"]["order_constit"] = rng.choice(["PE", "frequency"])


def _m_method(rng, s):
    if s["opts"].get("method") == "robust":
        s["opts"]["robust_kw"] = {
            "weight_function": rng.choice(["talwar", "fair", "logistic", "andrews"]),
        }
    else:
        s["opts"]["method"] = "robust"


def _m_tune(rng, s):
    s["opts"]["method"] = "robust"
    s["opts"]["robust_kw"] = {"weight_function": "cauchy", "tune": rng.choice([1.5, 4.0])}


def _m_two(rng, s):
    s["rec"]["two"] = not s["rec"]["two"]
    s["opts"].pop("infer", None)


def _m_infer(rng, s):
    i = s["opts"].get("infer")
    if i:
        if rng.random() < 0.5:
            i["amp_ratios"] = [round(x * 1.3, 4) for x in i["amp_ratios"]]
        else:
            i["phase_offsets"] = [x + 15 for x in i["phase_offsets"]]
    else:
        _m_nodal(rng, s)


def _m_rep(rng, s):
    s["rep"] = {"t": rng.choice(T_REPS), "u": rng.choice(U_REPS)}


def _m_n(rng, s):
    s["rec"]["n"] -= rng.choice([1, 2, 5])


MUTATORS = [
    _m_lat_sign,
    _m_lat_small,
    _m_lat_big,
    _m_lat_type,
    _m_start,
    _m_dt,
    _m_interior,
    _m_gap,
    _m_gap_move,
    _m_values,
    _m_scale,
    _m_phase_vals,
    _m_constit,
    _m_constit_perm,
    _m_nodal,
    _m_phase,
    _m_trend,
    _m_white,
    _m_conf,
    _m_order,
    _m_method,
    _m_tune,
    _m_two,
    _m_infer,
    _m_rep,
    _m_n,
]


def sibling(rng, s, k=None):
    s2 = copy.deepcopy(s)
    for _ in range(k or rng.choice([1, 1, 1, 2])):
        f = rng.choice(MUTATORS)
        f(rng, s2)
    s2["mut"] = f.__name__
    # ranges must stay inside the record
    n = s2["rec"]["n"]
    for key in ("drops", "nans"):
        s2["rec"][key] = [x for x in s2["rec"][key] if x[1] < n - 2]
    if "nudge" in s2["rec"]:
        s2["rec"]["nudge"] = [i for i in s2["rec"]["nudge"] if i < n - 2]
    return s2


# ------------------------------------------------------------- building calls
class Call:
    """One call, with its argument objects materialised."""

    __slots__ = ("args", "fn", "kwargs", "np_seed")

    def __init__(self, fn, args, kwargs, np_seed=None):
        self.fn, self.args, self.kwargs, self.np_seed = fn, args, kwargs, np_seed

    def __call__(self):
        if self.np_seed is not None:
            np.random.seed(self.np_seed)
        return self.fn(*self.args, **self.kwargs)


def solve_args(op):
    """-> (t, u, v, kwargs) as the caller would pass them."""
    t, u, v, miss = build_record(op["rec"])
    rep = op.get("rep") or {"t": "py", "u": "arr"}
    tt, epoch = rep_time(t, rep["t"])
    uu = rep_vals(u, miss, rep["u"])
    vv = rep_vals(v, miss, rep["u"])
    kw = copy.deepcopy(op["opts"])
    kw["epoch"] = epoch
    return tt, uu, vv, kw


def solve_call(op, utide):
    t, u, v, kw = solve_args(op)
    if v is None:
        return Call(utide.solve, (t, u), kw, op.get("np_seed"))
    return Call(utide.solve, (t, u, v), kw, op.get("np_seed"))


def recon_call(op, utide, coef):
    t = build_tspec(op["t"])
    tt, epoch = rep_time(t, op["t"]["rep"])
    kw = copy.deepcopy(op["kw"])
    kw["epoch"] = epoch
    if op.get("bad") == "ndim":
        tt = np.asarray(tt).reshape(1, -1)
    elif op.get("bad") == "epoch":
        tt, kw["epoch"] = np.asarray(t), "not-a-date"
    elif op.get("bad") == "key":
        kw["min_snr"] = 2
    return Call(utide.reconstruct, (tt, coef), kw)


BAD = [
    "nolat",
    "shape",
    "vshape",
    "ndim",
    "badopt",
    "badconf",
    "badconst",
    "badorder",
    "badinfer",
    "badepoch",
    "badrobust",
    "mcinfer",
    "short",
]


def bad_call(op, utide):
    """A call with faulty arguments: it must raise."""
    t, u, v, kw = solve_args(op)
    if op["rec"]["two"] is False:
        v = None
    how = op["how"]
    t, u = np.asarray(t), np.asarray(u)
    if how == "nolat":
        kw.pop("lat")
    elif how == "shape":
        t = t[:-1]
    elif how == "vshape":
        v = np.asarray(u)[:-2]
    elif how == "ndim":
        t, u, v = t.reshape(1, -1), u.reshape(1, -1), None
    elif how == "badopt":
        kw["conf_init"] = "linear"
    elif how == "badconf":
        kw["conf_int"] = "boot"
    elif how == "badconst":
        kw["constit"] = ["M2", "XX9"]
        kw.pop("infer", None)
        kw.pop("order_constit", None)
    elif how == "badorder":
        kw["order_constit"] = "size"
    elif how == "badinfer":
        kw["infer"] = {
            "inferred_names": ["K2"],
            "reference_names": ["S2", "K1"],
            "amp_ratios": [1.0],
            "phase_offsets": [1.0],
        }
    elif how == "badepoch":
        kw["epoch"] = "not-a-date"
        t = np.arange(len(u), dtype=float)
    elif how == "badrobust":
        kw["method"] = "robust"
        kw["robust_kw"] = {"weight_function": "nosuch"}
    elif how == "mcinfer":
        kw["conf_int"] = "MC"
        kw["constit"] = ["M2", "S2", "K1"]
        kw.pop("order_constit", None)
        m = 2 if v is not None else 1
        kw["infer"] = {
            "inferred_names": ["K2"],
            "reference_names": ["S2"],
            "amp_ratios": [0.3] * m,
            "phase_offsets": [1.0] * m,
        }
    elif how == "short":
        t, u, v = t[:0], u[:0], None
        kw.pop("infer", None)
    args = (t, u) if v is None else (t, u, v)
    return Call(utide.solve, args, kw)


# ------------------------------------------------------- the "alone" oracle
def run_chain(payload):
    """
    Pristine-process entry point: execute the given ops in order, each recon using
    the result of its src; return the outcome of the last one as a snapshot.
    """
    from . import target

    utide = target.load()
    quiet()
    objs = {}
    last = None
    for op in payload["ops"]:
        last = outcome(op, utide, objs)
        objs[op["id"]] = last[1]
    return (last[0], snap(last[1]) if last[0] == "ok" else last[1])


def outcome(op, utide, objs):
    """-> ("ok", result object) or ("err", exception class name)"""
    try:
        c = materialise(op, utide, objs)
        return ("ok", c())
    except HarnessError:
        raise
    except Exception as e:
        return ("err", type(e).__name__)


def materialise(op, utide, objs):
    if op["op"] == "solve":
        return solve_call(op, utide)
    if op["op"] == "recon":
        return recon_call(op, utide, objs[op["src"]])
    if op["op"] == "bad":
        return bad_call(op, utide)
    raise HarnessError(f"op {op['op']}")


def chain_of(op, ops):
    by = {o["id"]: o for o in ops}
    if op["op"] == "recon":
        return [by[op["src"]], op]
    return [op]


def quiet():
    import warnings

    # (a form of its own, so that a filter the package leaves behind can be told from it)
    warnings.filterwarnings("ignore", message=r"[\s\S]*")


def alone(pristine, op, ops):
    return pristine.run(run_chain, {"ops": chain_of(op, ops)})


TOL = {"rtol": 1e-8, "atol": 1e-8}


# -------------------------------------------------------------- shrink helpers
def shrink_solve(op):
    """Simpler variants of a solve op."""
    o = op["opts"]
    for k in (
        "infer",
        "method",
        "robust_kw",
        "order_constit",
        "Rayleigh_min",
        "white",
        "trend",
        "phase",
        "nodal",
    ):
        if k in o:
            c = copy.deepcopy(op)
            c["opts"].pop(k)
            if k == "method":
                c["opts"].pop("robust_kw", None)
            yield c
    if isinstance(o["constit"], list) and len(o["constit"]) > 1 and "infer" not in o:
        if not isinstance(o.get("order_constit"), list):
            c = copy.deepcopy(op)
            c["opts"]["constit"] = o["constit"][: len(o["constit"]) // 2]
            yield c
    if o["conf_int"] == "linear":
        c = copy.deepcopy(op)
        c["opts"]["conf_int"] = "none"
        if c["opts"].get("order_constit") != "SNR":
            yield c
    if op.get("rep") not in (None, {"t": "py", "u": "arr"}):
        c = copy.deepcopy(op)
        c["rep"] = {"t": "py", "u": "arr"}
        yield c
    r = op["rec"]
    for k in ("drops", "nans", "nudge"):
        if r.get(k):
            c = copy.deepcopy(op)
            c["rec"][k] = []
            yield c
    if r["jitter"]:
        c = copy.deepcopy(op)
        c["rec"]["jitter"] = 0.0
        yield c
    if r["two"] and "infer" not in o:
        c = copy.deepcopy(op)
        c["rec"]["two"] = False
        yield c


def shrink_ops(ops):
    """Drop ops (with their dependants); then simplify each."""
    for i in range(len(ops) - 1, -1, -1):
        k = ops[i]["id"]
        left = [o for o in ops if o["id"] != k and o.get("src") != k]
        if left:
            yield left
    for i, o in enumerate(ops):
        if o["op"] == "solve":
            for c in shrink_solve(o):
                yield [*ops[:i], c, *ops[i + 1 :]]
        elif o["op"] == "recon":
            if o["t"]["n"] > 1:
                c = copy.deepcopy(o)
                c["t"]["n"] = 1
                yield [*ops[:i], c, *ops[i + 1 :]]
            if len(o["kw"]) > 1:
                c = copy.deepcopy(o)
                c["kw"] = {"verbose": False}
                yield [*ops[:i], c, *ops[i + 1 :]]
