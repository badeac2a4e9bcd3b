"""
C29  A call keeps nothing: a long-lived service does not grow.

A service lives through a long history of requests: solutions, predictions, refused,
cancelled and failing calls, data files.  When a request is over and its owner has dropped
the arguments and the answer, nothing in the process refers to them any more, a result does not
keep its record alive, and memory, objects, threads and descriptors in use do not grow
with the number of requests answered.
"""

import copy
import gc
import os
import shutil
import tempfile
import threading
import tracemalloc
import weakref

import numpy as np

from .. import inject
from .. import workload as wl
from ..core import rng_for
from ..sched import LineProbe

ID = "C29"
COUNTS = {"quick": 56, "thorough": 1200}
LIMIT = 150.0
RULE = (
    "a history of 2-5 kinds of request, each answered 110-200 times with ever new data, names, latitude and times (solve with "
    "any option set, reconstruct, refused requests, cancellation at a line, a failing kernel, a data file); growth is "
    "judged between the end of a warm-up and the ends of two further stretches; non-trivial: the history contains a "
    "failing or aborted request"
)
STATES = "distinct (kinds of request in the history, option sets)"
REAL = ["utide (all modules, unmodified)", "numpy", "scipy"]
STUB = ["clients, failing kernels, cancellation", "files in a scratch directory"]
ASSUMPTIONS = [
    "a cache of bounded size is no growth: it is full at the end of the warm-up (140 requests) or small",
    "memory is what Python and numpy allocate (tracemalloc), and counts from 250 bytes a request: numpy keeps small blocks",
]
KINDS = ["solve", "solve", "solve", "recon", "refused", "cancel", "kernel", "file"]
WARM, LEG = 140, 40


def generate(rng, tier, i):
    kinds = []
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(KINDS)
        mc = rng.random() < 0.1
        s = wl.gen_solve(rng, mc=mc, auto=False, reps=rng.random() < 0.5)
        s["id"] = 0
        # short records
        s["rec"].update(n=rng.choice([80, 110]), dt=0.125, drops=[], nans=[[5, 9]] if rng.random() < 0.5 else [],
                        names=["M2", "K1"], amps=[1.0, 0.5], phs=[10.0, 40.0])
        if mc:
            s["opts"]["white"] = True
        if rng.random() < 0.6:
            # (nodal corrections take most of the time)
            s["opts"].update(nodal=False, phase=rng.choice(["raw", "linear_time"]))
        s["opts"]["constit"] = rng.sample(["M2", "K1", "O1", "MSF", "M3"], rng.randint(2, 5))
        if isinstance(s["opts"].get("order_constit"), list):
            s["opts"]["order_constit"] = list(s["opts"]["constit"])
        if "infer" in s["opts"]:
            s["opts"]["constit"] = sorted({*s["opts"]["constit"], "S2", "K1"})
            if isinstance(s["opts"].get("order_constit"), list):
                del s["opts"]["order_constit"]
        kinds.append({"kind": k, "op": s, "how": rng.choice(wl.BAD), "tag": rng.choice(["linalg.lstsq", "linalg.inv", "hstack", "angle"]),
                      "lines": rng.choice([5, 50, 120, 200])})
    return {"kinds": kinds, "seed": rng.randrange(1 << 30)}


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    from utide import utilities

    wl.quiet()
    rng = rng_for("leak", sc["seed"])
    tmp = tempfile.mkdtemp(prefix="c29-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    kinds = sc["kinds"]
    base = {}
    count = [0]
    warned = []

    def op_of(j):
        op = copy.deepcopy(kinds[j]["op"])
        r = op["rec"]
        r["nseed"] = rng.randrange(1 << 30)
        r["start"] += rng.randint(-3000, 3000) + count[0] * 0.0625
        op["opts"]["lat"] = round(op["opts"]["lat"] + rng.uniform(-3, 3), 4)
        c = op["opts"]["constit"]
        if not isinstance(op["opts"].get("order_constit"), list) and "infer" not in op["opts"]:
            op["opts"]["constit"] = rng.sample(c, rng.randint(1, len(c)))
        if op.get("np_seed") is not None:
            op["np_seed"] = rng.randrange(1 << 31)
        return op

    def request(watch):
        j = count[0] % len(kinds)
        count[0] += 1
        k = kinds[j]
        op = op_of(j)
        refs = []
        inputs = []
        if k["kind"] == "file":
            p = os.path.join(tmp, "f.npz")
            np.savez(p, a=rng.random() * np.ones(40), b=np.arange(5.0))
            r = utilities.loadbunch(p)
            refs.append(("data", weakref.ref(r)))
            del r
        elif k["kind"] == "recon":
            if j not in base:
                base[j] = wl.materialise(op, utide, {})()
            o = {"op": "recon", "src": 0, "kw": {"verbose": False, "min_SNR": rng.choice([0, 2])},
                 "t": {"start": op["rec"]["start"], "dt": 0.04, "n": rng.randint(20, 60), "rep": "py", "nans": []}}
            c = wl.materialise(o, utide, {0: base[j]})
            arrays(c.args, inputs)
            r = c()
            refs.append(("prediction", weakref.ref(r)))
            del r, c
        else:
            bad = k["kind"] == "refused"
            c = wl.bad_call({**op, "op": "bad", "how": k["how"]}, utide) if bad else wl.materialise(op, utide, {})
            arrays(c.args, inputs)
            r = None
            try:
                with inject.Streams(inject.FaultyStream()):
                    if k["kind"] == "cancel":
                        with LineProbe(k["lines"], TimeoutError("injected")):
                            r = c()
                    elif k["kind"] == "kernel":
                        with inject.OpFaults(1, MemoryError("injected"), only=k["tag"]):
                            r = c()
                    else:
                        r = c()
            except (TimeoutError, MemoryError):
                ctx.faults[k["kind"]] += 1
                ctx.nontrivial = True
            except Exception:
                if not bad:
                    warned.append(1)
                ctx.faults["refused"] += 1
                ctx.nontrivial = True
            if r is not None:
                del c
                if watch:
                    gc.collect()
                    for what, ref in inputs:
                        if ref() is not None:
                            ctx.fail("retained", f"the result of {note(k)} keeps {what} alive")
                refs.append(("result", weakref.ref(r)))
                for f in ("A", "Lsmaj", "g"):
                    if f in r:
                        refs.append((f"result.{f}", weakref.ref(r[f])))
            r = c = None
        if watch:
            gc.collect()
            for what, ref in inputs + refs:
                if ref() is not None:
                    ctx.fail("retained", f"{what} of {note(k)} is still alive after everybody dropped it")
            ctx.probes["references checked"] += 1

    def measure():
        gc.collect()
        return tracemalloc.get_traced_memory()[0], len(gc.get_objects()), threading.active_count(), inject.fd_count()

    n = len(kinds)
    leg = LEG + 5 * n
    try:
        for i in range(WARM):
            request(watch=i < 2 * n)
        tracemalloc.start()
        try:
            for _ in range(leg // 2):
                request(False)
            m = [measure()]
            for _ in range(2):
                for _ in range(leg):
                    request(False)
                m.append(measure())
        finally:
            tracemalloc.stop()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.calls["solve"] += count[0]
    if os.environ.get("DST_RATIOS"):
        print("LEAK", m, flush=True)
    d = [[b - a for a, b in zip(x, y, strict=True)] for x, y in zip(m, m[1:], strict=False)]
    names = ("bytes", "objects", "threads", "open descriptors")
    # growth in both stretches, of more than a little for each request
    lim = (250 * leg, 0.25 * leg, 0, 0)
    for q in range(4):
        if min(x[q] for x in d) > lim[q]:
            ctx.fail(
                "growth",
                f"a service that answers {', '.join(sorted({note(k) for k in kinds}))} holds more {names[q]} after each "
                f"further {leg} requests",
            )
    ctx.probes["histories whose growth was judged"] += 1
    ctx.probes["requests answered"] += count[0]
    ctx.state(sorted(k["kind"] for k in kinds), sorted(str(sorted(k["op"]["opts"])) for k in kinds))
    ctx.log(count[0], n, len(warned))


def arrays(args, out):
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray):
            # the array, and the one that owns the data
            out.append((f"argument {i}", weakref.ref(a)))
            if isinstance(a.base, np.ndarray):
                out.append((f"the data of argument {i}", weakref.ref(a.base)))


def note(k):
    o = k["op"]["opts"]
    return {
        "refused": f"refused requests ({k['how']})",
        "cancel": "cancelled solve",
        "kernel": f"solve that fails in {k['tag']}",
        "file": "loadbunch",
        "recon": "reconstruct",
    }.get(k["kind"], f"solve ({o['conf_int']}, {o.get('method', 'ols')}{', infer' if 'infer' in o else ''})")


def shrink(sc, rep):
    if len(sc["kinds"]) > 1:
        for k in sc["kinds"]:
            yield {**copy.deepcopy(sc), "kinds": [copy.deepcopy(k)]}
    for i, k in enumerate(sc["kinds"]):
        for v in wl.shrink_solve(k["op"]):
            c = copy.deepcopy(sc)
            c["kinds"][i]["op"] = v
            yield c
