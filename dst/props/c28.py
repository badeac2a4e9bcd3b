"""
C28  Every call ends, in steps and memory bounded by the size of the request.

A server answers whatever it is sent: records no sensor in order would deliver, iterations
that never converge, covariance matrices that are not positive definite, numerical kernels
that fail every time from some moment on.  Each call must return or raise within a number
of executed statements, and with an amount of memory, bounded by the size of the request.
"""

import copy
import tracemalloc

import numpy as np

from .. import inject
from .. import workload as wl
from ..sched import LineProbe

ID = "C28"
COUNTS = {"quick": 260, "thorough": 6000}
LIMIT = 60.0
RULE = (
    "1-3 calls of solve (ordinary, robust with any weight function, tolerance 0 or negative or not reachable, Monte Carlo) "
    "and reconstruct, on ordinary, nonsensical, tiny, constant or exactly fitted records, in half of the runs with one "
    "numerical kernel that fails at every use from the k-th on; the statements executed inside the package are counted, "
    "in some runs the peak of allocated memory; non-trivial: a kernel failed, the record was nonsensical, or memory was judged"
)
STATES = "distinct (kind of record, option set, failing kernel, magnitude of the step count)"
REAL = ["utide (all modules, unmodified)", "numpy", "scipy"]
STUB = ["failing numpy entry points", "sensor (synthetic records)"]
ASSUMPTIONS = [
    "steps are source lines executed inside the package; the bound is two hundred times what ordinary requests of the size need",
    "memory of the irregular coloured estimate (samples by frequencies, by design) is not judged",
]
KERNELS = ["linalg.cholesky", "linalg.svd", "linalg.eigvals", "linalg.lstsq", "linalg.inv", "linalg.cond", "linalg.pinv",
           "random.multivariate_normal", "fft.rfft", "median", "interp", "unique", "argsort"]
WF = ["andrews", "bisquare", "cauchy", "fair", "huber", "logistic", "ols", "talwar", "welsch"]


def generate(rng, tier, i):
    if rng.random() < 0.12:
        # memory
        n = rng.choice([4000, 6000])
        two = rng.random() < 0.5
        names = rng.sample(["M2", "S2", "K1", "O1", "M4"], rng.randint(1, 3))
        jitter = rng.random() < 0.4
        o = {"conf_int": rng.choice(["none", "linear", "MC"]), "constit": names, "lat": 40.0, "verbose": False,
             "nodal": rng.choice([True, False, "linear_time"]), "method": rng.choice(["ols", "robust"]),
             "white": jitter or rng.random() < 0.5, "epoch": "python"}
        return {"memory": {"n": n, "two": two, "jitter": jitter, "nan": rng.random() < 0.3, "seed": rng.randrange(1 << 30), "opts": o}}
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        mc = rng.random() < 0.45
        s = wl.gen_solve(rng, mc=mc, auto=rng.random() < 0.3, reps=False)
        s["id"] = len(ops)
        if rng.random() < 0.35:
            wl.wildify(rng, s)
        if rng.random() < 0.3:
            s["rec"]["noise"] = rng.choice([0.0, 1e-9, 100.0])
        if rng.random() < 0.4:
            s["opts"]["method"] = "robust"
            s["opts"]["robust_kw"] = {
                "weight_function": rng.choice(WF),
                "tune": rng.choice([None, 0.01, 0.3, 2.0, 1e4]),
                "tol": rng.choice([0, 1e-16, -1e-3, 1e-3, 0.5]),
                "maxit": rng.choice([1, 2, 50, 200, 400]),
            }
        if rng.random() < 0.5:
            s["kernel"] = {"tag": rng.choice(KERNELS[:4] * 3 + KERNELS), "k": rng.choice([1, 1, 1, 2, 3, 10]),
                           "exc": rng.choice(["LinAlgError", "LinAlgError", "MemoryError", "ValueError", "FloatingPointError"])}
        ops.append(s)
        if rng.random() < 0.3:
            o = wl.gen_recon(rng, s, s["id"])
            o["id"] = len(ops)
            ops.append(o)
    return {"ops": ops}


def bound(op):
    if op["op"] == "recon":
        return 60_000 + 200 * op["t"]["n"]
    n = op["rec"]["n"]
    rk = op["opts"].get("robust_kw") or {}
    # ordinary requests need some 20 lines per constituent and 30 per iteration
    return 400_000 + 200 * n + 400 * (rk.get("maxit") or 50)


EXC = {"LinAlgError": np.linalg.LinAlgError, "MemoryError": MemoryError, "ValueError": ValueError,
       "FloatingPointError": FloatingPointError}


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    if "memory" in sc:
        memory(sc["memory"], ctx, utide)
        return
    objs = {}
    for op in sc["ops"]:
        if op["op"] == "recon" and op["src"] not in objs:
            continue
        call = wl.materialise(op, utide, objs)
        lim = bound(op)
        probe = LineProbe(cap=lim)
        kern = op.get("kernel")
        ctx.calls[op["op"]] += 1
        faults = inject.OpFaults(kern["k"], EXC[kern["exc"]]("injected"), only=kern["tag"]) if kern else inject.OpFaults()
        end = "returned"
        with inject.Streams(inject.FaultyStream()), faults:
            try:
                with probe:
                    r = call()
                if op["op"] == "solve":
                    objs[op["id"]] = r
            except Exception as e:
                end = type(e).__name__
            except BaseException as e:
                if not probe.over:
                    ctx.fail("unexpected-exception", f"{op['op']}: {type(e).__name__}: {e}")
        if probe.over:
            ctx.fail(
                "no-end",
                f"{op['op']} {what(op)}: more than {lim} statements executed"
                + (f", {kern['tag']} fails from use {kern['k']} on" if kern else ""),
            )
        if end == "RecursionError":
            ctx.fail("no-end", f"{op['op']} {what(op)}: unbounded recursion")
        if faults.fired:
            ctx.faults[f"{kern['tag']} fails for good"] += 1
            ctx.nontrivial = True
        if op["op"] == "solve" and op["rec"].get("wild"):
            ctx.faults["nonsensical record: " + op["rec"]["wild"]] += 1
            ctx.nontrivial = True
        ctx.log(op["op"], probe.count, faults.count, end)
        ctx.probes["ended by " + ("return" if end == "returned" else "exception")] += 1
        ctx.state(op.get("rec", {}).get("wild"), sorted(map(str, (op.get("opts") or op["kw"]).items())), kern and kern["tag"], int(np.log2(probe.count + 1)))


def what(op):
    if op["op"] == "recon":
        return f"of {op['t']['n']} times"
    o = op["opts"]
    return (
        f"of {op['rec']['n']} samples ({op['rec'].get('wild') or 'ordinary record'}, noise {op['rec']['noise']}, {o['conf_int']}, "
        f"{o.get('method', 'ols')} {o.get('robust_kw') or ''})"
    )


def memory(m, ctx, utide):
    n = m["n"]
    g = np.random.Generator(np.random.PCG64(m["seed"]))
    t = 730000.0 + np.arange(n) / 24
    if m["jitter"]:
        t = t + g.uniform(-0.2, 0.2, n) / 24
    x = [np.cos(12.1408 * t) + 0.3 * g.standard_normal(n) for _ in range(2 if m["two"] else 1)]
    if m["nan"]:
        x[0][g.random(n) < 0.05] = np.nan
    p = 2 * len(m["opts"]["constit"]) + 2
    # satellites of the nodal corrections: some 9 kB for each sample
    lim = n * (14000 + 256 * p) + 12_000_000
    np.random.seed(m["seed"])
    for what in ("solve", "reconstruct"):
        tracemalloc.start()
        try:
            if what == "solve":
                c = utide.solve(t, *x, **m["opts"])
            else:
                utide.reconstruct(t, c, epoch="python", verbose=False)
            peak = tracemalloc.get_traced_memory()[1]
        except Exception as e:
            ctx.fail("unexpected-exception", f"{what}: {type(e).__name__}: {e}")
        finally:
            tracemalloc.stop()
        ctx.calls[what] += 1
        if peak > lim:
            ctx.fail("memory", f"{what} of {n} samples, {p} parameters takes more than {lim / 1e6:.0f} MB ({m['opts']})")
        ctx.probes["peak of memory judged"] += 1
    ctx.nontrivial = True
    ctx.state("memory", n, sorted(map(str, m["opts"].items())))
    ctx.log("memory", n, m["two"])


def shrink(sc, rep):
    if "memory" in sc:
        for k, x in (("two", False), ("jitter", False), ("nan", False)):
            if sc["memory"][k]:
                c = copy.deepcopy(sc)
                c["memory"][k] = x
                yield c
        return
    for i in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            c = copy.deepcopy(sc)
            k = c["ops"][i]["id"]
            c["ops"] = [o for o in c["ops"] if o["id"] != k and o.get("src") != k]
            if c["ops"]:
                yield c
    for i, o in enumerate(sc["ops"]):
        if "kernel" in o:
            c = copy.deepcopy(sc)
            c["ops"][i].pop("kernel")
            yield c
        if o["op"] == "solve":
            for v in wl.shrink_solve(o):
                c = copy.deepcopy(sc)
                c["ops"][i] = v
                yield c
