"""
C04  A call that fails or is aborted leaves no trace, and failures surface.

Calls are cancelled at a visited source line, lose a kernel or allocation, run under a
hostile ambient (warnings as errors, floating-point traps, failing output stream) or get
invalid arguments.  The outcome must be an exception or the right answer; afterwards the
process-wide state is what it was, and the retried call and other calls are right.
"""

import copy
import warnings

import numpy as np

from .. import inject
from .. import workload as wl
from ..compare import diff, snap
from ..core import HarnessError
from ..isolate import Pristine
from ..sched import LineProbe
from .c01 import pick

ID = "C04"
COUNTS = {"quick": 700, "thorough": 12000}
LIMIT = 90.0
RULE = (
    "1-3 faulted calls (solve or reconstruct) each followed by a retry and a sibling "
    "call; faults: cancellation with five exception kinds at a visited source line, "
    "one-shot or persistent failure of an intercepted numpy kernel/allocation, warnings "
    "turned into errors, floating-point traps, failing stdout, invalid arguments; "
    "non-trivial: at least one fault fired inside a call"
)
STATES = "distinct (fault kind, place where it fired) pairs"
REAL = ["utide (all modules, unmodified)", "numpy", "scipy"]
STUB = ["failing numpy entry points", "cancellation", "sys.stdout"]
ASSUMPTIONS = [
    "an abort is not injected inside except/finally bodies or on with/try lines: no "
    "code can protect its own clean-up from interruption",
]

EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "TimeoutError": TimeoutError,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
}
KEXC = {
    "MemoryError": MemoryError,
    "LinAlgError": np.linalg.LinAlgError,
    "FloatingPointError": FloatingPointError,
    "ValueError": ValueError,
}


def generate(rng, tier, i):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        mc = rng.random() < 0.15
        s = wl.gen_solve(rng, mc=mc, auto=not mc)
        s["id"] = len(ops)
        s["opts"]["verbose"] = rng.random() < 0.3
        ops.append(s)
        if rng.random() < 0.4:
            o = wl.gen_recon(rng, s, s["id"])
            o["kw"]["verbose"] = rng.random() < 0.3
            o["id"] = len(ops)
            ops.append(o)
    for o in ops:
        r = rng.random()
        seed = rng.randrange(1 << 30)
        if o["op"] == "solve" and rng.random() < 0.1:
            # an additional call on a record no sensor in order would deliver
            o["before"] = wl.wildify(rng, wl.gen_solve(rng, mc=False, auto=False))
        if r < 0.35:
            o["fault"] = {"kind": "cancel", "exc": rng.choice(sorted(EXC)), "seed": seed}
        elif r < 0.65:
            o["fault"] = {
                "kind": "kernel",
                "exc": rng.choice(sorted(KEXC)),
                "seed": seed,
                "sticky": rng.random() < 0.5,
            }
        elif r < 0.75:
            o["fault"] = {"kind": "warnings"}
        elif r < 0.82:
            o["fault"] = {"kind": "fptrap"}
        elif r < 0.9:
            o["fault"] = {
                "kind": "stream",
                "mode": rng.choice(["epipe", "enospc", "closed", "eintr", "unicode"]),
                "k": rng.choice([1, 1, 2, 3, 4, 5]),
            }
            (o.get("opts") or o["kw"])["verbose"] = True
        elif r < 0.97 and o["op"] == "solve":
            o["fault"] = {"kind": "bad", "how": rng.choice(wl.BAD)}
        if o["op"] == "solve" and o.get("np_seed") is not None and rng.random() < 0.4:
            # the covariance never becomes positive definite
            o["fault"] = {"kind": "kernel", "exc": rng.choice(["LinAlgError", "LinAlgError", "MemoryError"]), "seed": seed,
                          "only": rng.choice(["linalg.cholesky", "linalg.cholesky", "linalg.svd"]), "k": rng.choice([1, 1, 2, 5])}
    return {"ops": ops, "sib": [wl.sibling(rng, o) for o in ops if o["op"] == "solve"][:1]}


def sites(payload):
    from .. import target

    utide = target.load()
    wl.quiet()
    objs = {}
    ops = payload["ops"]
    out = inject.FaultyStream()
    with inject.Streams(out):
        for o in ops[:-1]:
            objs[o["id"]] = wl.materialise(o, utide, objs)()
    c = wl.materialise(ops[-1], utide, objs)
    if payload["kind"] == "cancel":
        lp = LineProbe(collect=True)
        with inject.Streams(out), lp:
            try:
                c()
            except Exception:
                pass
        return lp.locs
    of = inject.OpFaults(collect=True)
    with inject.Streams(out), of:
        try:
            c()
        except Exception:
            pass
    return of.sites


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    pristine = Pristine()
    try:
        _execute(sc, ctx, pristine, utide)
    finally:
        pristine.close()


def alone(payload):
    with inject.Streams(inject.FaultyStream()):
        return wl.run_chain(payload)


def faulted(c, fault, k):
    """Run call c under the fault -> (outcome, where it fired or None)"""
    out = inject.FaultyStream()
    kind = fault["kind"]
    fired = None
    try:
        if kind == "cancel":
            lp = LineProbe(k, EXC[fault["exc"]]("injected"))
            try:
                with inject.Streams(out), lp:
                    r = c()
            finally:
                fired = lp.fired
        elif kind == "kernel":
            of = inject.OpFaults(k, KEXC[fault["exc"]]("injected"), sticky=fault.get("sticky"), only=fault.get("only"))
            try:
                with inject.Streams(out), of:
                    r = c()
            finally:
                fired = of.fired
        elif kind == "warnings":
            fired = ("warnings", "as", "errors")
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                with inject.Streams(out):
                    r = c()
        elif kind == "fptrap":
            fired = ("fp", "traps", "on")
            with np.errstate(all="raise"), inject.Streams(out):
                r = c()
        elif kind == "stream":
            out = inject.FaultyStream(fault["mode"], fault["k"])
            try:
                with inject.Streams(out):
                    r = c()
            finally:
                fired = ("stream", fault["mode"], fault["k"]) if out.fired else None
        else:
            fired = ("bad", fault["how"], 0)
            with inject.Streams(out):
                r = c()
        return ("ok", r), fired
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit, Exception) as e:
        return ("err", type(e).__name__), fired


def _execute(sc, ctx, pristine, utide):
    wl.quiet()
    objs = {}
    by = {o["id"]: o for o in sc["ops"]}
    np.random.seed(4242)
    tables = inject.tables_snapshot(utide)
    fds = inject.fd_count()
    first = True
    for op in sc["ops"]:
        if op["op"] == "recon" and op["src"] not in objs:
            continue
        chain = [by[op["src"]], op] if op["op"] == "recon" else [op]
        plain = [{x: y for x, y in o.items() if x != "fault"} for o in chain]
        want = pristine.run(alone, {"ops": plain})
        if "before" in op:
            _watched({**op["before"], "id": 998}, "a nonsensical record", ctx, utide, objs)
            ctx.faults["nonsensical record"] += 1
        fault = op.get("fault")
        if fault:
            k = None
            if "only" in fault:
                k = fault["k"]
            elif fault["kind"] in ("cancel", "kernel"):
                locs = pristine.run(sites, {"ops": plain, "kind": fault["kind"]})
                if locs:
                    k, _ = pick(locs, fault["seed"])
            if fault["kind"] == "bad":
                c = wl.bad_call({**op, "op": "bad", "how": fault["how"]}, utide)
            else:
                c = wl.materialise(op, utide, objs)
            mc = op.get("np_seed") is not None
            if fault["kind"] == "bad" and fault["how"] == "mcinfer":
                mc = True  # a Monte Carlo request: it may draw before it fails
                c.np_seed = None
            elif mc:
                np.random.seed(op["np_seed"])
                c.np_seed = None
            # the very first call is also warm-up for lazily created things (fds)
            amb = inject.ambient(utide, rng=not mc)
            got, fired = faulted(c, fault, k)
            amb2 = inject.ambient(utide, rng=not mc)
            ctx.calls[op["op"]] += 1
            if fired is not None:
                ctx.faults[fault["kind"] + ":" + str(fault.get("exc") or fault.get("mode") or fault.get("how") or "")] += 1
                ctx.nontrivial = True
                ctx.states.add(f"{fault['kind']}@{fired[0]}:{fired[1]}:{fired[2]}")
            ctx.log(op["id"], op["op"], fault, fired, got[0], got[1] if got[0] == "err" else "")
            d = inject.ambient_diff(amb, amb2)
            if d:
                ctx.fail(
                    "ambient-changed",
                    f"{op['op']} under {fault} ({got[0]}, fired at {fired}) changed: "
                    + "; ".join(f"{x}: {str(amb[x])[:80]} -> {str(amb2[x])[:80]}" for x in d),
                )
            # "not positive definite" is an answer: intervals from the nearest such matrix or the diagonal
            spd = fault.get("only") == "linalg.cholesky" and fault["exc"] == "LinAlgError"
            if got[0] == "ok" and fault["kind"] != "bad" and not spd:
                dd = (
                    diff(snap(got[1]), want[1], **wl.TOL)
                    if want[0] == "ok"
                    else [f"succeeded, alone it raises {want[1]}"]
                )
                if dd:
                    ctx.fail(
                        "fault-swallowed",
                        f"{op['op']} under {fault} (fired at {fired}) returned a different "
                        f"answer instead of raising: {dd[:4]}",
                    )
                ctx.probes["fault survived with the right answer"] += fired is not None
        # once the fault is gone the same call is right
        got = _watched(op, "no fault", ctx, utide, objs)
        _cmp(ctx, "retry", op, got, want)
        if got[0] == "ok" and op["op"] == "solve":
            objs[op["id"]] = got[1]
        if first:
            first = False
    for s in sc["sib"]:
        s = {**s, "id": 999}
        want = pristine.run(alone, {"ops": [s]})
        _cmp(ctx, "later-call", s, _quiet(s, utide, objs), want)
    for a, b in zip(tables.items(), inject.tables_snapshot(utide).items(), strict=True):
        d = diff(a[1], b[1])
        if d:
            ctx.fail("tables-modified", f"{a[0]}: {d[:3]}")
    extra = inject.fd_count() - fds
    if extra > 0:
        ctx.fail("descriptor-leak", f"{extra} more open descriptors than before")


def _quiet(op, utide, objs):
    with inject.Streams(inject.FaultyStream()):
        return wl.outcome(op, utide, objs)


def _watched(op, what, ctx, utide, objs):
    mc = op.get("np_seed") is not None
    amb = inject.ambient(utide, rng=not mc)
    got = _quiet(op, utide, objs)
    amb2 = inject.ambient(utide, rng=not mc)
    ctx.calls[op["op"]] += 1
    d = inject.ambient_diff(amb, amb2)
    if d:
        ctx.fail(
            "ambient-changed",
            f"{op['op']} with {what} ({got[0]}) changed: "
            + "; ".join(f"{x}: {str(amb[x])[:80]} -> {str(amb2[x])[:80]}" for x in d),
        )
    return got


def _cmp(ctx, cls, op, got, want):
    if got[0] != want[0] or (got[0] == "err" and got[1] != want[1]):
        ctx.fail(cls, f"{op['op']} {op['id']}: {got[0]} {got[1] if got[0] == 'err' else ''} instead of {want[0]}")
    if got[0] == "ok":
        d = diff(snap(got[1]), want[1], **wl.TOL)
        if d:
            ctx.fail(cls, f"{op['op']} {op['id']} after the fault differs from a fresh process: {d[:4]}")


def shrink(sc, rep):
    for i in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            c = copy.deepcopy(sc)
            k = c["ops"][i]["id"]
            c["ops"] = [o for o in c["ops"] if o["id"] != k and o.get("src") != k]
            if c["ops"]:
                yield c
    if sc["sib"]:
        yield {**copy.deepcopy(sc), "sib": []}
    for i, o in enumerate(sc["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(sc)
            c["ops"][i].pop("fault")
            yield c
        if o.get("before"):
            c = copy.deepcopy(sc)
            c["ops"][i].pop("before")
            yield c
        if o["op"] == "solve":
            for v in wl.shrink_solve(o):
                c = copy.deepcopy(sc)
                c["ops"][i] = v
                yield c
