"""
C21  Automatic selection follows the length of the record, nothing else.

Messages of a gauge arrive late, twice, out of order or never; the archive is analysed
with constit="auto" again and again while it grows and after restarts that lose what was
not stored.  The constituents are those that the Rayleigh criterion allows for the span of
what is there: whatever lies inside, whatever the values, however late it came.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl
from ..core import EventLoop, rng_for

ID = "C21"
COUNTS = {"quick": 500, "thorough": 8000}
LIMIT = 90.0
RULE = (
    "one archive that grows message by message (loss, delay, duplicates, outages, restarts that lose the unstored "
    "tail), analysed at 2-6 moments with constit='auto' and a Rayleigh minimum; non-trivial: at least two analyses "
    "with different spans"
)
STATES = "distinct (archive pattern, criterion)"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["gauge, telemetry and archive (event simulation)", "crash and restart of the archive"]
ASSUMPTIONS = ["spans within 1e-9 (relative) of the criterion of a constituent are not judged"]


def generate(rng, tier, i):
    span = rng.choice([1.2, 3.0, 8.0, 14.0, 16.0, 30.0, 30.0, 60.0, 120.0, 200.0, 370.0, 400.0])
    dt_h = 1 if span < 35 else rng.choice([2, 3]) if span < 130 else rng.choice([3, 6])
    two = rng.random() < 0.35
    infer = None
    if rng.random() < 0.25:
        prs = rng.sample([("P1", "K1"), ("K2", "S2"), ("NU2", "N2"), ("S1", "K1"), ("2N2", "N2"), ("RHO1", "Q1"), ("MKS2", "M2")], rng.randint(1, 2))
        m = 2 if two else 1
        infer = {
            "inferred_names": [p[0] for p in prs],
            "reference_names": [p[1] for p in prs],
            "amp_ratios": [0.3] * m * len(prs),
            "phase_offsets": [10.0] * m * len(prs),
        }
    return {
        "start": float(rng.randint(690000, 750000)) + rng.choice([0.0, 0.37]),
        "span": span,
        "dt_h": dt_h,
        "two": two,
        "chan": st.gauge.gen_channel(rng, heavy=rng.random() < 0.3),
        "when": sorted(round(rng.uniform(0.1, 1.3), 3) for _ in range(rng.randint(2, 6 if span < 130 else 3))),
        "lose": [round(rng.uniform(0.2, 1.0), 3) for _ in range(rng.choice([0, 0, 1]))],
        "rmin": [rng.choice([None, 1, 1.0, 0.9, 0.7, 0.97, 1.2, 2, 0.5, 0.2, 0.05, 5, 30]) for _ in range(6)],
        "infer": infer,
        "lat": st.gen_lat(rng),
        "nseed": rng.randrange(1 << 30),
        "values": rng.choice(["noise", "tide", "zero", "huge"]),
        "missing": rng.choice(["absent", "nan", "nan-ends", "v-only"]),
        "conf": rng.random() < 0.15,
        "epoch": rng.choice(st.EPOCHS),
        "nodal": rng.choice([True, False, "linear_time"]),
        "trend": rng.random() < 0.6,
        "order": rng.choice(["time", "time", "arrival", "reversed", "rotated"]),
    }


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    dt = sc["dt_h"] / 24
    n = int(round(sc["span"] / dt)) + 1
    chan = sc["chan"]
    rng = rng_for("c21", chan["seed"])
    loop = EventLoop()
    t0 = sc["start"]
    times = []
    for k in range(n):
        x = k * dt * (1 + chan["drift"])
        if chan["jitter"] and k:
            x += rng.uniform(-1, 1) * chan["jitter"] * dt
        times.append(t0 + x)
    times = st.msround(np.array(times))
    g = np.random.Generator(np.random.PCG64(sc["nseed"]))
    val = {"noise": lambda: g.standard_normal(n), "tide": lambda: np.cos(2 * np.pi * (times - t0) * 1.9323), "zero": lambda: np.zeros(n),
           "huge": lambda: 1e9 * g.standard_normal(n)}[sc["values"]]
    u, v = val(), val()
    archive, stored = set(), set()
    span = dt * (n - 1)
    out = [(t0 + a * span, t0 + (a + b) * span) for a, b in chan["outages"] + chan["crashes"]]
    spans = []

    def sample(k):
        if any(a <= loop.now < b for a, b in out):
            ctx.faults["sample lost: outage or crash"] += 1
            return
        if rng.random() < chan["drop"]:
            ctx.faults["message lost"] += 1
            return
        d = rng.random() * chan["delay"]
        loop.after(d, lambda: archive.add(k))
        if rng.random() < chan["dup"]:
            ctx.faults["duplicate delivered"] += 1
            loop.after(d + rng.random() * (chan["delay"] + 0.1), lambda: archive.add(k))

    def store():
        stored.clear()
        stored.update(archive)

    def crash():
        ctx.faults["archive restarted, unstored tail lost"] += 1
        archive.clear()
        archive.update(stored)

    def analyse(j):
        have = sorted(archive)
        if len(have) < 12:
            return
        spans.append(one(sc, ctx, utide, times, u, v, have, sc["rmin"][j % 6], j))
        if j % 2:
            store()

    for k in range(n):
        loop.at(times[k], lambda k=k: sample(k))
    for j, w in enumerate(sc["when"]):
        loop.at(t0 + w * span, lambda j=j: analyse(j))
    for w in sc["lose"]:
        loop.at(t0 + w * span, crash)
    loop.run()
    ctx.sim_days += span
    spans = [s for s in spans if s]
    ctx.nontrivial = len({round(s[0], 6) for s in spans}) > 1
    # a longer span never loses a constituent (same criterion)
    for a in spans:
        for b in spans:
            if a[1] == b[1] and a[0] < b[0] * (1 - 1e-9) and not set(a[2]) <= set(b[2]):
                ctx.fail("monotone", f"{a[0]:.4f} days give {sorted(set(a[2]) - set(b[2]))}, {b[0]:.4f} days do not")


def one(sc, ctx, utide, times, u, v, have, rmin, j):
    two = sc["two"]
    idx = np.array(have)
    t, x, y = times[idx], u[idx].copy(), v[idx].copy()
    first, last = t[0], t[-1]
    if sc["missing"] != "absent":
        # slots that never came are there, as missing values
        allk = np.arange(idx[0], idx[-1] + 1)
        miss = ~np.isin(allk, idx)
        t, x, y = times[allk], u[allk].copy(), v[allk].copy()
        if sc["missing"] == "v-only" and two:
            y[miss] = np.nan
        else:
            x[miss] = np.nan
        ctx.faults["missing value written down"] += int(miss.sum())
    step = np.diff(t)
    even = np.var(np.unique(step)) < 2e-16
    odd = 1e-20 < np.var(np.unique(step)) < 1e-12
    if sc["order"] != "time":
        # as it arrived: the archive is not in the order of time
        r = rng_for("order", sc["nseed"], j)
        m = len(t)
        if sc["order"] == "arrival":
            k = list(range(m))
            r.shuffle(k)
        else:
            k = list(range(m))[::-1] if sc["order"] == "reversed" else list(np.roll(range(m), r.randrange(m)))
        t, x, y = t[k], x[k], y[k]
        ctx.faults["archive out of order"] += 1
        # valid samples only, unless it is still an even sequence of times
        even = len(t) > 1 and np.var(np.unique(np.diff(t))) < 2e-16
        if not even:
            ok = np.isfinite(x) & (np.isfinite(y) | (not two))
            first, last = t[ok].min(), t[ok].max()
        else:
            first, last = t.min(), t.max()
    if sc["missing"] == "nan-ends" and not even and len(have) > 30:
        # on uneven times the span is that of the valid samples
        x[:2] = np.nan
        good = np.flatnonzero(np.isfinite(x))
        first, last = t[good].min(), t[good].max()
    if odd:
        return None
    span = last - first
    tt, ep = wl.rep_time(t, sc["epoch"])
    kw = {"lat": sc["lat"], "constit": "auto", "epoch": ep, "verbose": False, "conf_int": "linear" if sc["conf"] and span < 31 else "none",
          "nodal": sc["nodal"], "trend": sc["trend"], "white": True}
    if rmin is not None:
        kw["Rayleigh_min"] = rmin
    if sc["infer"]:
        kw["infer"] = copy.deepcopy(sc["infer"])
    lim = (rmin or 1) / (24 * span)
    want = [nm for nm, d in zip(rm.NAMES, rm.DF, strict=True) if d >= lim]
    if any(abs(d - lim) <= 1e-9 * d for d in rm.DF if d):
        return None
    listed = list(want)
    if sc["infer"]:
        ri = list(dict.fromkeys(sc["infer"]["reference_names"])) + sc["infer"]["inferred_names"]
        want = [w for w in want if w not in ri] + ri
    if len(x) < 2 * len(want) + 8:
        kw["conf_int"] = "none"
    ctx.calls["solve"] += 1
    try:
        c = utide.solve(tt, x, y, **kw) if two else utide.solve(tt, x, **kw)
    except np.linalg.LinAlgError:
        ctx.probes["not solvable"] += 1
        return None
    except Exception as e:
        ctx.fail("unexpected-exception", f"{type(e).__name__}: {e}")
    got = [str(k) for k in c["name"]]
    ctx.log("auto", round(float(span), 6), rmin, len(got))
    ctx.state(have, rmin)
    if sorted(got) != sorted(want):
        ctx.fail(
            "selection",
            f"{len(t)} samples over {span:.5f} days, Rayleigh minimum {rmin}: {sorted(set(got) - set(want))} too many, "
            f"{sorted(set(want) - set(got))} missing",
        )
    return (span, rmin or 1, listed)


def shrink(sc, rep):
    if len(sc["when"]) > 1:
        for w in sc["when"]:
            yield {**copy.deepcopy(sc), "when": [x for x in sc["when"] if x != w]}
    for k, simple in (("outages", []), ("crashes", []), ("dup", 0), ("delay", 0), ("jitter", 0), ("drift", 0), ("drop", 0)):
        if sc["chan"][k]:
            c = copy.deepcopy(sc)
            c["chan"][k] = simple
            yield c
    for k, simple in (("lose", []), ("infer", None), ("missing", "absent"), ("values", "noise"), ("conf", False), ("epoch", "py"), ("order", "time"), ("two", False), ("nodal", False), ("trend", False)):
        if sc[k] != simple:
            if k == "two" and sc["infer"]:
                continue
            yield {**copy.deepcopy(sc), k: simple}
