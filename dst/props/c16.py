"""
C16  Replicas keeping different time conventions and containers converge.

One gauge, 2-5 archives.  Each receives the messages over its own faulty channel and keeps
them in its own notation (epoch or date type of time, container and dtype of values,
notation of what is missing); they exchange what they miss by gossip across partitions
that come and heal.  Whenever two archives hold the same samples their solutions are the
same; at the end, when everything has healed, all are, and each answers the others'
prediction requests in their notation.
"""

import copy

import numpy as np

from .. import station as st
from .. import refmodel as rm
from .. import workload as wl
from ..compare import diff, snap
from ..core import EventLoop, rng_for

ID = "C16"
COUNTS = {"quick": 260, "thorough": 5000}
LIMIT = 150.0
RULE = (
    "2-5 replicas with drawn notations, lossy delivery, gossip with partitions; solutions compared "
    "at two checkpoints and at the end, predictions served across notations; non-trivial: "
    "replicas differed in what they held at some time and were compared in different notations"
)
STATES = "distinct (notation, held samples) of compared replicas"
REAL = ["utide (all modules, unmodified)", "numpy", "pandas"]
STUB = ["ocean (reference model)", "gauge, channels, gossip (event simulation)"]
ASSUMPTIONS = [
    "notations round a time by up to 1e-9 days; results are compared with a tolerance of 1e-6",
]
T_KINDS = ["py", "pylist", "pytuple", "ml", "ep:1992-03-01", "ep:2000-01-01", "epd:1850-01-01", "epdt:2000-02-29",
           "ep:1970-01-01", "epd:2024-02-29", "dt64", "dt64us", "dt64ns", "dt64s", "dt64m", "dt64h", "pydt", "pydta",
           "pdidx", "pdser", "mat", "pdts", "ep:1999-12-31T18:30", "epdt:2001-07-04T06:00", "ep64:1995-05-05T12:00"]
# only for records of whole days
INT_KINDS = ["int:py", "int:ml", "int:ep:1992-03-01", "int32:py", "int:epd:1850-01-01", "dt64D", "pydate", "intlist"]
U_KINDS = ["arr", "list", "tuple", "ma", "ser", "strided", "ro", "int16", "int32", "float32", "fortran", "rev", "bigend"]
NAME_KINDS = ["list", "tuple", "rev"]


def generate(rng, tier, i):
    span = rng.choice([16.0, 16.0, 31.0])
    dt_h = rng.choice([1, 1, 2, 0.5])
    two = rng.random() < 0.4
    daily = rng.random() < 0.12
    if daily:
        dt_h, span = 24, float(rng.choice([120, 200, 366]))
        names = st.gen_names(rng, span, dt_h, rng.randint(1, 4), ["MM", "MSF", "MF", "SSA", "MSM"])
    else:
        names = st.gen_names(rng, span, dt_h, rng.randint(2, 5), st.COMMON if rng.random() < 0.7 else None) or ["M2"]
    ci = rng.choice(["linear", "linear", "none"])
    o = {
        "nodal": rng.choice([True, True, False, "linear_time"]),
        "phase": rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"]),
        "trend": rng.random() < 0.7,
        "conf_int": ci,
        "white": rng.random() < 0.5,
        "order_constit": rng.choice(["frequency", "frequency", "PE", "list"]),
        "verbose": False,
    }
    if rng.random() < 0.12:
        o["method"] = "robust"
    infer = None
    if rng.random() < 0.2 and span >= 16 and not daily:
        names = [n for n in names if n not in ("K2", "T2") and abs(st.F0[n] - st.F0["S2"]) * span * 24 > 1.3] + ["S2"]
        m = 2 if two else 1
        infer = {
            "inferred_names": ["K2"], "reference_names": ["S2"], "amp_ratios": [0.27] * m, "phase_offsets": [12.0] * m,
        }
    reps = []
    for _ in range(rng.choice([2, 3, 3, 4, 5])):
        reps.append(
            {
                "t": rng.choice(T_KINDS + (INT_KINDS * 2 if daily else [])),
                "u": rng.choice(U_KINDS),
                "v": rng.choice(U_KINDS),
                "miss": rng.choice(["absent", "absent", "nan", "mask"]),
                "names": rng.choice(NAME_KINDS),
                "lat": rng.choice(["float", "float", "np64", "np0d", "np32"]),
                "infer": rng.choice(["dict", "bunch", "tuples", "arrays"]),
                "loss": rng.choice([0.05, 0.2, 0.5]),
                "q": rng.choice(["list", "tuple", "array", "series", "set"]),
            },
        )
    return {
        "start": float(rng.randint(711900, 745000)),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "truth": st.gen_truth(rng, names, two, True),
        "lat": round(rng.uniform(-70, 70) * 4) / 4,
        "jitter": rng.random() < 0.3 and not daily,
        "frac": rng.random() < 0.5,
        "final_loss": rng.choice([0, 0.05, 0.15]),
        "nseed": rng.randrange(1 << 30),
        "opts": o,
        "infer": infer,
        "reps": reps,
        "parts": [[rng.uniform(0.1, 0.7), rng.uniform(0.05, 0.4), rng.randrange(1, 31)] for _ in range(rng.choice([0, 1, 2]))],
        "seed": rng.randrange(1 << 30),
    }


def times(t, kind, whole):
    """-> time argument, epoch, kind used"""
    if kind.startswith("int"):
        how, _, inner = kind.partition(":")
        x, ep = wl.rep_time(t, inner or "py")
        if not np.array_equal(x, np.round(x)):
            return x, ep
        if how == "intlist":
            return [int(y) for y in x], ep
        return x.astype("int32" if how == "int32" else "int64"), ep
    if kind in ("dt64D", "pydate"):
        d, ep = wl.rep_time(t, "dt64")
        if not np.array_equal(t, np.round(t)):
            return d, ep
        d = d.astype("datetime64[D]")
        return (d.tolist() if kind == "pydate" else d), ep
    if kind.startswith("ep64:"):
        x, ep = wl.rep_time(t, "ep:" + kind[5:])
        return x, np.datetime64(ep)
    if kind in ("dt64h", "dt64m", "dt64s"):
        if not whole:
            kind = "dt64"
        else:
            d, ep = wl.rep_time(t, "dt64")
            return d.astype(f"datetime64[{kind[4:]}]"), ep
    if kind == "mat":
        return np.ma.array(t.copy()), "python"
    if kind == "pdts":
        import pandas as pd

        return [pd.Timestamp(x) for x in wl.rep_time(t, "dt64ns")[0]], None
    return wl.rep_time(t, kind)


def vals(x, miss, kind, how):
    """values (whole numbers) in the replica's container"""
    if x is None:
        return None
    if how == "absent":
        miss = np.zeros(len(x), bool)
    if how == "mask" and (miss.any() or kind == "ma"):
        y = x.copy()
        y[miss] = 30000
        if kind in ("int16", "int32", "float32"):
            y = y.astype(kind)
        return np.ma.array(y, mask=miss.copy())
    if miss.any() and kind in ("int16", "int32"):
        kind = "float32"
    y = x.astype(float)
    y[miss] = np.nan
    if kind in ("int16", "int32", "float32"):
        return y.astype(kind)
    if kind == "bigend":
        return y.astype(">f8")
    if kind == "fortran":
        return np.asfortranarray(np.column_stack([y, y]))[:, 0]
    if kind == "rev":
        return y[::-1].copy()[::-1]
    return wl.rep_vals(y, None, kind)


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    rng = rng_for("gossip", sc["seed"])
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    dt = sc["dt_h"] / 24
    n = int(round(sc["span"] / dt)) + 1
    t = sc["start"] + dt * np.arange(n)
    if sc["jitter"]:
        j = g.uniform(-0.2, 0.2, n) * dt
        j[[0, -1]] = 0
        t = t + j
    t = st.msround(t)
    whole = not sc["jitter"] and sc["dt_h"] >= 1
    u, v = rm.synth(t, 0.5 * (t[0] + t[-1]), sc["truth"], sc["lat"], sc["opts"]["nodal"], sc["opts"]["phase"])
    # whole numbers fit every container; otherwise binary fractions, which fit float32
    ints = any(p[k].startswith("int") for p in sc["reps"] for k in ("u", "v"))
    frac = 1.0 if ints or not sc.get("frac") else 1024.0 * 4

    u = np.round(1000 * (u + 0.05 * g.standard_normal(n))) / frac
    lost = g.random(n) < sc["final_loss"]
    lost[[0, -1]] = False
    if v is not None:
        v = np.round(1000 * (v + 0.05 * g.standard_normal(n))) / frac
    reps = sc["reps"]
    m = len(reps)
    held = [np.zeros(n, bool) for _ in reps]
    loop = EventLoop()
    span = t[-1] - t[0]
    parts = [(t[0] + a * span, t[0] + (a + b) * span, mask) for a, b, mask in sc["parts"]]

    def cut(a, b):
        for x, y, mask in parts:
            if x <= loop.now < y and ((mask >> a) & 1) != ((mask >> b) & 1):
                return True
        return False

    def deliver(r, k):
        held[r][k] = True

    def sample(k):
        if lost[k]:
            return
        for r in range(m):
            if k in (0, n - 1) or rng.random() >= reps[r]["loss"]:
                loop.after(rng.random() * 0.2, lambda r=r: deliver(r, k))
            else:
                ctx.faults["message lost"] += 1

    def gossip():
        a, b = rng.randrange(m), rng.randrange(m)
        if a != b:
            if cut(a, b):
                ctx.faults["gossip cut by a partition"] += 1
            elif rng.random() < 0.7:
                held[b] |= held[a]
                if rng.random() < 0.5:
                    held[a] |= held[b]
            else:
                ctx.faults["gossip lost"] += 1
        loop.after(0.5 + rng.random(), gossip)

    for k in range(n):
        loop.at(t[k], lambda k=k: sample(k))
    loop.at(t[0] + 0.5, gossip)
    differed = [False]
    solved = {}
    ctx.faults["partition and heal"] += len(parts)

    def checkpoint(label):
        if any((held[0] != h).any() for h in held[1:]):
            differed[0] = True
        groups = {}
        for r in range(m):
            groups.setdefault(held[r].tobytes(), []).append(r)
        for rs in groups.values():
            if len(rs) > 1 and held[rs[0]].sum() > 0.5 * n:
                compare_group(rs, label)

    def archive(r):
        """the arguments replica r passes to solve"""
        p = reps[r]
        have = held[r]
        how = p["miss"]
        if how == "absent":
            tt, uu, vv, miss = t[have], u[have], None if v is None else v[have], np.zeros(int(have.sum()), bool)
        else:
            last = int(np.flatnonzero(have)[-1]) + 1
            tt, uu, vv, miss = t[:last], u[:last], None if v is None else v[:last], ~have[:last]
        ta, ep = times(tt, p["t"], whole)
        return ta, vals(uu, miss, p["u"], how), vals(vv, miss, p["v"], how), ep

    def options(r, ep):
        p = reps[r]
        o = dict(sc["opts"])
        names = list(sc["truth"]["names"])
        if p["names"] == "tuple":
            names = tuple(names)
        elif p["names"] == "rev":
            names = names[::-1]
        o["constit"] = names
        if sc["infer"]:
            d = copy.deepcopy(sc["infer"])
            o["constit"] = type(names)(names + type(names)(d["inferred_names"]))
            if p["infer"] == "bunch":
                d = utide.utilities.Bunch(d)
            elif p["infer"] == "tuples":
                d = {k: tuple(x) for k, x in d.items()}
            elif p["infer"] == "arrays":
                d = {k: np.array(x) for k, x in d.items()}
            o["infer"] = d
        if o["order_constit"] == "list":
            o["order_constit"] = type(names)(sorted(o["constit"]))
        o["lat"] = {
            "float": float, "np64": np.float64, "np0d": lambda x: np.array(x), "np32": np.float32,
        }[p["lat"]](sc["lat"])
        o["epoch"] = ep
        return o

    def solve(r):
        key = (r, held[r].tobytes())
        if key not in solved:
            ta, ua, va, ep = archive(r)
            ctx.calls["solve"] += 1
            try:
                args = (ta, ua) if va is None else (ta, ua, va)
                solved[key] = utide.solve(*args, **options(r, ep))
            except Exception as e:
                ctx.fail("unexpected-exception", f"{note(r)}: {type(e).__name__}: {e}")
        return solved[key]

    def note(r):
        p = reps[r]
        return f"replica {r} (time {p['t']}, values {p['u']}, missing {p['miss']}, lat {p['lat']})"

    # times without values count for the reference time of regular records, so missing
    # slots and absent slots are only the same thing when that does not matter
    o = sc["opts"]
    same_ref = o["nodal"] is True and o["phase"] == "Greenwich" and o["conf_int"] == "none"

    def comparable(r):
        return "absent" if reps[r]["miss"] == "absent" else "slots"

    def compare_group(rs, label):
        by = {}
        for r in rs:
            by.setdefault("all" if held[r].all() else comparable(r), []).append(r)
        for grp in by.values():
            for r in grp[1:]:
                a, b = solve(grp[0]), solve(r)
                d = coef_diff(snap(a), snap(b), o)
                ctx.probes["solutions compared"] += 1
                p = reps[r]
                ctx.state(p["t"], p["u"], p["miss"], p["lat"], int(held[r].sum()))
                if d:
                    ctx.fail("diverged", f"{label}: {note(grp[0])} and {note(r)} hold the same samples: {d[:3]}")

    loop.at(t[0] + 0.8 * span, lambda: checkpoint("during the record"))
    loop.run(until=t[-1] + 1.0)
    checkpoint("at the end of the record")
    # faults stop: a full round of gossip
    for r in range(1, m):
        held[0] |= held[r]
    for r in range(1, m):
        held[r] = held[0].copy()
    compare_group(list(range(m)), "after everything healed")
    # all against all: constants only, which do not depend on the notation of loss
    a = solve(0)
    for r in range(1, m):
        b = solve(r)
        if same_ref or held[0].all() or comparable(r) == comparable(0):
            constants(ctx, a, b, note(0), note(r), sc["two"], o)
    # predictions
    q = np.concatenate([g.uniform(t[0], t[-1], 6), g.uniform(t[0] - 40, t[-1] + 400, 6)])
    q = np.round(q * 24 / sc["dt_h"]) / 24 * sc["dt_h"] if whole else st.msround(q)
    # (date types of pandas end in 2262, all of ours are well before)
    comps = ("u", "v") if sc["two"] else ("h",)
    amp = np.sum(np.asarray(a["Lsmaj"] if sc["two"] else a["A"])) + 3000 / frac
    for r in range(m):
        c = solve(r)
        kw = {"verbose": False, "min_SNR": 0}
        names = list(c["name"])
        sel = None
        if rng.random() < 0.6:
            sel = names[: max(1, len(names) // 2)]
            kw = {"verbose": False, "constit": list(sel)}
        ctx.calls["reconstruct"] += 1
        ref = utide.reconstruct(q, c, epoch="python", **kw)
        for s in range(m):
            ta, ep = times(q, reps[s]["t"], whole)
            kw2 = dict(kw)
            if sel is not None:
                kw2["constit"] = as_names(sel, reps[s]["q"])
            ctx.calls["reconstruct"] += 1
            try:
                out = utide.reconstruct(ta, c, epoch=ep, **kw2)
            except Exception as e:
                ctx.fail("unexpected-exception", f"request of {note(s)}: {type(e).__name__}: {e}")
            for k in comps:
                e = np.abs(out[k] - ref[k])
                if not np.all(e <= 1e-6 * amp):
                    ctx.fail(
                        "served",
                        f"replica {r} answers {note(s)} (constit as {reps[s]['q'] if sel else None}) with "
                        f"{k} = {out[k][:3]}, its own notation gives {ref[k][:3]}",
                    )
    ctx.sim_days += span
    ctx.nontrivial = differed[0] and m > 1
    ctx.log(m, [int(h.sum()) for h in held], sorted(ctx.probes.items()))


def as_names(sel, kind):
    if kind == "tuple":
        return tuple(sel)
    if kind == "array":
        return np.array(sel)
    if kind == "set":
        return set(sel)
    if kind == "series":
        import pandas as pd

        return pd.Series(sel, index=np.arange(len(sel)) + 50)
    return list(sel)


SKIP = (".aux.opt", ".aux.lat", ".rf.iterations", ".weights", ".rf")


def coef_diff(a, b, o):
    """everything but the record of the options themselves"""
    tol = 1e-6
    return diff(a, b, rtol=tol, atol=tol, skip=SKIP)


def constants(ctx, a, b, na, nb, two, o):
    names = list(a["name"])
    if sorted(names) != sorted(b["name"]):
        ctx.fail("diverged", f"{na}: {sorted(names)}; {nb}: {sorted(b['name'])}")
    p, q = st.phasors(a, names, two)
    p2, q2 = st.phasors(b, names, two)
    size = np.abs(p).max() + np.abs(q).max()
    e = max(np.abs(p - p2).max(), np.abs(q - q2).max())
    if not e <= 1e-6 * size:
        ctx.fail("diverged", f"{na} and {nb}: constants differ by {e:.3g} of {size:.3g}")


def shrink(sc, rep):
    if len(sc["reps"]) > 2:
        for k in range(len(sc["reps"])):
            c = copy.deepcopy(sc)
            del c["reps"][k]
            yield c
    base = {"t": "py", "u": "arr", "v": "arr", "miss": "absent", "names": "list", "lat": "float", "infer": "dict", "q": "list"}
    for k, p in enumerate(sc["reps"]):
        for a, x in base.items():
            if p[a] != x:
                c = copy.deepcopy(sc)
                c["reps"][k][a] = x
                yield c
    for k, x in (("infer", None), ("parts", []), ("jitter", False), ("final_loss", 0)):
        if sc[k] != x:
            c = copy.deepcopy(sc)
            c[k] = x
            yield c
    for k, x in (("nodal", False), ("phase", "raw"), ("trend", False), ("conf_int", "none"), ("order_constit", "frequency")):
        if sc["opts"][k] != x:
            c = copy.deepcopy(sc)
            c["opts"][k] = x
            yield c
