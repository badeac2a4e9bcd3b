"""
C12  A prediction depends only on its own time and the coefficients.

A prediction service: clients hold slots (times) to be predicted, requests carry
arbitrary subsets of them (chunks, overlapping, unsorted, with missing times in any
notation) over a channel that loses, duplicates, delays and reorders, to worker nodes
that crash and restart; clients retry with new partitions until everything is answered.
Every answer for a slot must be the reference value of that slot, whoever computed it and
whatever else was in the request.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl
from ..core import EventLoop, rng_for
from ..sched import Scheduler, make_policy

ID = "C12"
COUNTS = {"quick": 420, "thorough": 8000}
LIMIT = 120.0
RULE = (
    "one coefficient set (1-D/2-D, all nodal/phase modes, inference, trend), 20-400 slots "
    "(sometimes 30000), requests of 0..all slots in every notation of time and of missing "
    "time, answered by 1-3 workers through a faulty channel or on scheduled threads; "
    "non-trivial: at least two requests overlapped or were answered out of order"
)
STATES = "distinct (request partition, order of answers) histories"
REAL = ["utide.reconstruct, utide.solve (all modules, unmodified)", "numpy", "pandas"]
STUB = ["clients, channel, workers (event simulation)", "thread scheduler", "ocean (reference model)"]
ASSUMPTIONS = [
    "values of one slot may differ by rounding (1e-9 of the size of the series) between requests, "
    "because BLAS sums in different orders for different shapes",
]
KINDS = ["py", "py", "pylist", "pytuple", "ml", "ep:1992-03-01", "epd:1850-01-01", "epdt:2000-02-29",
         "dt64", "dt64us", "dt64ns", "pydt", "pydta", "pdidx", "pdser", "ma", "rev", "strided", "ro", "scalar"]


def gen_coef(rng):
    span = rng.choice([8.0, 16.0, 31.0])
    two = rng.random() < 0.5
    names = st.gen_names(rng, span, 1, rng.randint(1, 6), st.COMMON if rng.random() < 0.6 else None)
    names = names or ["M2"]
    infer = None
    if rng.random() < 0.25 and "S2" not in names and span >= 16:
        names = [n for n in names if abs(st.F0[n] - st.F0["S2"]) * span * 24 > 1.3] + ["S2"]
        m = 2 if two else 1
        infer = {
            "inferred_names": ["K2", "T2"],
            "reference_names": ["S2", "S2"],
            "amp_ratios": [0.27, 0.06] * m,
            "phase_offsets": [10.0, -35.0] * m,
        }
        names = [n for n in names if n not in ("K2", "T2")]
    return {
        "start": float(rng.randint(690000, 745000)),
        "span": span,
        "truth": st.gen_truth(rng, names, two, True),
        "lat": st.gen_lat(rng),
        "nseed": rng.randrange(1 << 30),
        "opts": {
            "nodal": rng.choice([True, True, False, "linear_time"]),
            "phase": rng.choice(["Greenwich", "Greenwich", "linear_time", "raw"]),
            "trend": rng.random() < 0.7,
            "conf_int": rng.choice(["linear", "none"]),
            "white": True,
            "infer": infer,
            "order_constit": rng.choice(["PE", "frequency"]),
            "verbose": False,
        },
    }


def generate(rng, tier, i):
    c = gen_coef(rng)
    big = rng.random() < 0.03
    n = rng.choice([20, 60, 150, 400]) if not big else rng.choice([9000, 30000])
    if c["opts"]["conf_int"] == "none":
        sel = rng.choice([{"min_SNR": 0}, {"constit": True}])
    else:
        sel = rng.choice(
            [{"min_SNR": 0}, {"min_SNR": 2}, {}, {"min_SNR": 20}, {"min_PE": 5}, {"constit": True},
             {"min_SNR": 0, "min_PE": 10}],
        )
    return {
        "coef": c,
        "sel": sel,
        "slots": {
            "n": n,
            "seed": rng.randrange(1 << 30),
            "where": rng.choice(["in", "near", "far", "grid", "ties"]),
        },
        "mode": rng.choice(["net", "net", "net", "threads"]) if not big else "net",
        "chunk": rng.choice([1, 3, 10, 40, 200]) if not big else rng.choice([2000, 9000, 30000]),
        "missing": rng.choice([0, 0.1, 0.4, 1.0]),
        "kinds": sorted(set(rng.choice(KINDS) for _ in range(rng.choice([1, 2, 4, 8])))),
        "net": {
            "loss": rng.choice([0, 0.1, 0.4]),
            "dup": rng.choice([0, 0.2]),
            "delay": rng.choice([0, 1, 5]),
            "crash": rng.choice([0, 0, 1, 2]),
            "workers": rng.choice([1, 2, 3]),
            "seed": rng.randrange(1 << 30),
        },
        "policy": {"kind": rng.choice(["rand", "rr"]), "p": rng.choice([0.01, 0.1, 0.4]), "k": rng.choice([1, 3, 17])},
        "seed": rng.randrange(1 << 30),
    }


def make_coef(utide, c, ctx):
    t = c["start"] + np.arange(0, c["span"] * 24 + 1) / 24
    g = np.random.Generator(np.random.PCG64(c["nseed"]))
    o = dict(c["opts"])
    tref = 0.5 * (t[0] + t[-1])
    u, v = rm.synth(t, tref, c["truth"], c["lat"], o["nodal"], o["phase"])
    u = u + 0.05 * g.standard_normal(len(t))
    if v is not None:
        v = v + 0.05 * g.standard_normal(len(t))
    names = list(c["truth"]["names"])
    inf = o.pop("infer")
    if inf:
        o["infer"] = copy.deepcopy(inf)
        names += inf["inferred_names"]
    ctx.calls["solve"] += 1
    args = (t, u) if v is None else (t, u, v)
    coef = utide.solve(*args, constit=names, lat=c["lat"], epoch="python", **o)
    return coef, t


def slot_times(s, t):
    g = np.random.Generator(np.random.PCG64(s["seed"]))
    n, a, b = s["n"], t[0], t[-1]
    if s["where"] == "in":
        x = g.uniform(a, b, n)
    elif s["where"] == "near":
        x = g.uniform(a - 60, b + 60, n)
    elif s["where"] == "far":
        x = g.uniform(676000, 780000, n)
    elif s["where"] == "grid":
        x = a - 1 + np.arange(n) * g.choice([1 / 24, 0.25, 1.0])
    else:
        x = np.round(g.uniform(a, b, n))
    x = np.round(x * 86400e3) / 86400e3
    if n > 5:
        x[3] = 0.5 * (a + b)
    return x


def request(x, slots, kind, missing, g):
    """-> (time argument, epoch, positions of the slots in it, number of entries)"""
    slots = np.asarray(slots, int)
    n = len(slots)
    k = int(round(missing * n)) if missing else 0
    if kind == "scalar":
        if n == 1:
            return float(x[slots[0]]), "python", np.array([0]), 1
        kind = "py"
    if kind == "rev":
        slots_t = x[slots]
        order = np.argsort(-slots_t, kind="stable")
        # positions are of the slots in the order given
        pos = np.empty(n, int)
        pos[order] = np.arange(n)
        return slots_t[order].copy(), "python", pos, n
    total = n + k
    pos = np.sort(g.permutation(total)[:n]) if total else np.zeros(0, int)
    pos = pos.astype(int)
    full = np.full(total, np.nan)
    full[pos] = x[slots]
    if kind == "ma":
        m = np.isnan(full)
        junk = g.choice([1e20, np.nan, 0.0, 735000.25, -9999.0])
        return np.ma.array(np.where(m, junk, full), mask=m), "python", pos, total
    if kind == "strided":
        buf = np.full(2 * total, 733333.25)
        buf[::2] = full
        return buf[::2], "python", pos, total
    if kind == "ro":
        full.setflags(write=False)
        return full, "python", pos, total
    if kind in ("pydt", "pydta") and k:
        kind = "dt64"
    if total == 0 and kind.startswith(("pd", "pydt")):
        kind = "py"
    if kind in ("py", "ml") and k and g.random() < 0.3:
        full[np.isnan(full)] = np.inf
    t, ep = wl.rep_time(full, kind)
    return t, ep, pos, total


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    coef, trec = make_coef(utide, sc["coef"], ctx)
    two = "u" if "umean" in coef else None
    x = slot_times(sc["slots"], trec)
    n = len(x)
    names = list(coef["name"])
    kw = dict(sc["sel"])
    if kw.get("constit"):
        kw["constit"] = names[:: 2] if len(names) > 1 else names
    kw["verbose"] = False
    ref, scale = reference(coef, names, x, sc, kw, ctx)
    if ref is None:
        return
    tol = 1e-9 * scale * (1 + np.abs(x - trec.mean()) / 30)
    comps = ["u", "v"] if two else ["h"]
    g = np.random.Generator(np.random.PCG64(sc["seed"]))
    got = np.zeros(n, int)
    hist = []

    def serve(slots, kind):
        t, ep, pos, total = request(x, slots, kind, sc["missing"], g)
        return t, ep, pos, total

    def call(req):
        t, ep, pos, total = req
        ctx.calls["reconstruct"] += 1
        try:
            return utide.reconstruct(t, coef, epoch=ep, **kw)
        except Exception as e:
            ctx.fail("unexpected-exception", f"reconstruct of {total} times: {type(e).__name__}: {e}")

    def accept(slots, kind, req, out):
        _, ep, pos, total = req
        slots = np.asarray(slots, int)
        for k, c in enumerate(comps):
            y = np.asarray(out[c])
            if y.shape != (total,):
                ctx.fail("shape", f"{c}: {y.shape} values for {total} times ({kind})")
            mask = np.ones(total, bool)
            mask[pos] = False
            if not np.isnan(y[mask]).all():
                ctx.fail("missing", f"{c}: a missing time ({kind}) got a value {y[mask]}")
            e = np.abs(y[pos] - ref[k][slots])
            bad = ~(e <= model_tol(scale, x[slots], trec))
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                ctx.fail(
                    "value",
                    f"{c} at {x[slots[j]]!r}: {y[pos][j]!r} in a request of {total} times ({kind}), "
                    f"the coefficients say {ref[k][slots[j]]!r}",
                )
            # against the other answers for the same slot
            # (python day numbers exactly; other notations round the time to 1e-10 days)
            exact = ep == "python"
            old = best[k, exact][slots]
            d = np.abs(y[pos] - old)
            bad = d > tol[slots] * (1 if exact else 100)
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                ctx.fail(
                    "request-dependent",
                    f"{c} at {x[slots[j]]!r}: {y[pos][j]!r} in a request of {total} times ({kind}), "
                    f"{old[j]!r} in another one",
                )
            best[k, exact][slots] = np.where(np.isnan(old), y[pos], old)
        if kind != "scalar" and "t_mpl" in out:
            tm = np.ma.filled(np.ma.asarray(out["t_mpl"], float), np.nan) if ep != "python" else None
            if tm is not None and not np.all(np.abs(tm[pos] - x[slots]) < 1e-7):
                ctx.fail("time-echo", f"t_mpl of the result is not the time asked for ({kind})")
        got[slots] += 1

    best = {(k, e): np.full(n, np.nan) for k in range(len(comps)) for e in (True, False)}
    if sc["mode"] == "threads":
        run_threads(sc, ctx, n, serve, call, accept, hist)
    else:
        run_net(sc, ctx, n, serve, call, accept, got, hist)
    if not (got > 0).all():
        ctx.fail("unanswered", f"{int((got == 0).sum())} slots have no answer")
    # and in one piece
    req = request(x, np.arange(n), "py", 0, g)
    accept(np.arange(n), "py", req, call(req))
    ctx.nontrivial = len(hist) > 1
    ctx.state(sc["mode"], hist[:400])
    ctx.log(sc["mode"], n, hist[:60])


def model_tol(scale, x, trec):
    return 3e-7 * scale * (1 + np.abs(x - trec.mean()) / 3000)


def reference(coef, names, x, sc, kw, ctx):
    """the tide that the coefficients describe, from the reference model"""
    o = sc["coef"]["opts"]
    two = "umean" in coef
    amp = np.asarray(coef["Lsmaj"] if two else coef["A"])
    keep = np.ones(len(names), bool)
    if kw.get("constit"):
        keep = np.array([n in kw["constit"] for n in names])
    else:
        snr_min, pe_min = kw.get("min_SNR", 2), kw.get("min_PE", 0)
        if snr_min or pe_min:
            if two:
                E = coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2
                N = (coef["Lsmaj_ci"] / 1.96) ** 2 + (coef["Lsmin_ci"] / 1.96) ** 2
            else:
                E = coef["A"] ** 2
                N = (coef["A_ci"] / 1.96) ** 2
            snr, pe = E / N, 100 * E / E.sum()
            near = (np.abs(snr / max(snr_min, 1e-30) - 1) < 1e-6) | (np.abs(pe - pe_min) < 1e-6)
            if near.any():
                ctx.probes["selection too close to call"] += 1
                return None, None
            keep = (snr >= snr_min) & (pe >= pe_min)
    nm = [n for n, k in zip(names, keep, strict=True) if k]
    tr = {"names": nm, "g": np.asarray(coef["g"])[keep]}
    m = ("umean", "vmean", "uslope", "vslope") if two else ("mean", "slope")
    for k in m:
        tr[k] = coef[k] if k in coef else 0.0
        if k.endswith("slope") and not o["trend"]:
            tr[k] = 0.0
    for k in ("Lsmaj", "Lsmin", "theta") if two else ("A",):
        tr[k] = np.asarray(coef[k])[keep]
    u, v = rm.synth(x, coef["aux"]["reftime"], tr, sc["coef"]["lat"], o["nodal"], o["phase"])
    scale = float(np.sum(np.abs(amp))) + sum(abs(float(tr[k])) for k in m) + 1.0
    return ([u, v] if two else [u]), scale


def run_net(sc, ctx, n, serve, call, accept, got, hist):
    net = sc["net"]
    rng = rng_for("net", net["seed"])
    loop = EventLoop()
    kinds = sc["kinds"]
    down = {}
    quiet_after = 60.0
    for w in range(net["workers"]):
        for _ in range(net["crash"]):
            a = rng.uniform(0, 30)
            down.setdefault(w, []).append((a, a + rng.uniform(1, 10)))
            ctx.faults["worker crash and restart"] += 1
    nreq = [0]

    def lossy(kind):
        if loop.now < quiet_after and rng.random() < net["loss"]:
            ctx.faults[kind] += 1
            return True
        return False

    def submit():
        todo = [k for k in range(n) if not got[k]]
        if not todo:
            return
        rng.shuffle(todo)
        extra = [rng.randrange(n) for _ in range(rng.choice([0, 0, min(5, n)]))]
        todo += extra
        pos = 0
        while pos < len(todo):
            size = max(1, int(sc["chunk"] * rng.uniform(0.3, 1.5))) if sc["chunk"] > 1 else 1
            part = todo[pos : pos + size]
            pos += size
            if rng.random() < 0.4:
                part = sorted(part)
            if rng.random() < 0.15 and len(part) < 1000:
                part = part + part[: rng.randint(0, len(part))]  # the same time twice
                ctx.faults["time duplicated within a request"] += 1
            if rng.random() < 0.03:
                send([], rng.choice(kinds))
            send(part, rng.choice(kinds))
        loop.after(12.0, submit)  # time-out and retry

    def send(part, kind):
        nreq[0] += 1
        copies = 1
        if loop.now < quiet_after and rng.random() < net["dup"]:
            copies = 2
            ctx.faults["request duplicated"] += 1
        for _ in range(copies):
            if lossy("request lost"):
                continue
            w = rng.randrange(net["workers"])
            loop.after(rng.random() * net["delay"], lambda: work(w, part, kind))

    def work(w, part, kind):
        if any(a <= loop.now < b for a, b in down.get(w, [])) and loop.now < quiet_after:
            ctx.faults["request met a worker that was down"] += 1
            return
        req = serve(part, kind)
        out = call(req)
        if lossy("answer lost"):
            return
        loop.after(rng.random() * net["delay"], lambda: answer(part, kind, req, out))

    def answer(part, kind, req, out):
        accept(part, kind, req, out)
        hist.append([kind, len(part), part[:3]])

    loop.at(0.0, submit)
    loop.run(until=400.0)
    ctx.sim_days += loop.now / 86400


def run_threads(sc, ctx, n, serve, call, accept, hist):
    rng = rng_for("threads", sc["seed"])
    slots = list(range(n))
    rng.shuffle(slots)
    size = max(sc["chunk"], n // 12 + 1)
    reqs = []
    for a in range(0, n, size):
        part = slots[a : a + size]
        kind = rng.choice(sc["kinds"])
        reqs.append((part, kind, serve(part, kind)))
    s = Scheduler(make_policy(sc["policy"], rng_for("policy", sc["seed"])))
    outs = {}
    errs = []
    todo = list(range(len(reqs)))

    def body(tid):
        while todo:
            k = todo.pop(0)
            s.enter(tid)
            try:
                outs[k] = call(reqs[k][2])
            except Exception as e:
                errs.append(e)
                return
            finally:
                s.leave(tid)

    s.run([body] * 3)
    ctx.faults["preemption inside a call"] += len(s.switch_locs)
    if errs:
        raise errs[0]
    for k in sorted(outs):
        part, kind, req = reqs[k]
        accept(part, kind, req, outs[k])
        hist.append([kind, len(part), part[:3]])


def shrink(sc, rep):
    for k, simple in (("loss", 0), ("dup", 0), ("delay", 0), ("crash", 0), ("workers", 1)):
        if sc["net"][k] != simple:
            c = copy.deepcopy(sc)
            c["net"][k] = simple
            yield c
    if sc["mode"] != "net":
        c = copy.deepcopy(sc)
        c["mode"] = "net"
        yield c
    if sc["missing"]:
        c = copy.deepcopy(sc)
        c["missing"] = 0
        yield c
    for k in sc["kinds"]:
        if len(sc["kinds"]) > 1:
            c = copy.deepcopy(sc)
            c["kinds"] = [k]
            yield c
    if sc["slots"]["n"] > 5:
        for m in (2, 5, sc["slots"]["n"] // 2):
            c = copy.deepcopy(sc)
            c["slots"]["n"] = m
            yield c
    o = sc["coef"]["opts"]
    for k, simple in (("nodal", False), ("phase", "raw"), ("infer", None), ("trend", False), ("conf_int", "none")):
        if o[k] != simple and not (k == "conf_int" and "constit" not in sc["sel"] and sc["sel"] != {"min_SNR": 0}):
            c = copy.deepcopy(sc)
            c["coef"]["opts"][k] = simple
            yield c
    tr = sc["coef"]["truth"]
    if len(tr["names"]) > 1 and not o["infer"]:
        for j in range(len(tr["names"])):
            c = copy.deepcopy(sc)
            for x in ("names", "A", "g", "Lsmaj", "Lsmin", "theta"):
                if x in c["coef"]["truth"]:
                    del c["coef"]["truth"][x][j]
            yield c
