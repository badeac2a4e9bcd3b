"""
C02  Results do not depend on the history of earlier calls.

One long-lived process plays a random history of calls: near-identical siblings,
failing calls, cancelled calls, argument buffers reused and overwritten in place by the
caller, results modified in place by the caller, results kept for ever.  Oracle: every
outcome equals the outcome of the same call in a pristine process, and every result
once returned never changes unless the caller changes that very object.
"""

import copy

import numpy as np

from .. import workload as wl
from ..compare import diff, snap
from ..core import rng_for
from ..isolate import Pristine
from ..sched import LineProbe

ID = "C02"
COUNTS = {"quick": 260, "thorough": 4000}
LIMIT = 180.0
RULE = (
    "histories of 6-60 calls drawn from a pool of near-identical requests; faults: "
    "failing calls, cancelled calls, buffers reused in place, returned objects modified "
    "in place by their owner; non-trivial: at least 5 successful calls compared with "
    "the pristine oracle and at least one fault"
)
STATES = "distinct (mutator, op kind, previous op kind) histories steps"
REAL = ["utide (all modules, unmodified)", "numpy", "scipy"]
STUB = ["the calling program", "cancellation", "numpy global random stream (seeded per call)"]
ASSUMPTIONS = ["pristine oracle: forked process in which utide was imported, nothing called"]


def generate(rng, tier, i):
    long = rng.random() < 0.15
    L = rng.randint(30, 60) if long else rng.randint(6, 16)
    base = wl.gen_solve(rng, reps=False, gaps=rng.random() < 0.4)
    bases = [base]
    if rng.random() < 0.5:
        bases.append(wl.gen_solve(rng, reps=True))
    pool = []
    for _ in range(rng.randint(3, 40 if long else 6)):
        pool.append(wl.sibling(rng, rng.choice(bases + pool[-2:])))
    pool += bases
    ops = []
    solves = []
    for k in range(L):
        r = rng.random()
        if solves and r < 0.25:
            src = rng.choice(solves[-6:])
            if rng.random() < 0.5:
                prev = [o for o in ops if o["op"] == "recon"]
                o = wl.gen_recon(rng, src, src["id"])
                if prev and rng.random() < 0.6:  # same times, or almost
                    o["t"] = copy.deepcopy(rng.choice(prev[-3:])["t"])
                    if rng.random() < 0.5:
                        m = rng.choice(["nudge", "start", "rep"])
                        if m == "nudge":
                            o["t"]["nudge"] = [1] if o["t"]["n"] > 2 else []
                        elif m == "start":
                            o["t"]["start"] += rng.choice([0.5, 365.0, 1.0])
                        else:
                            o["t"]["rep"] = rng.choice(["py", "dt64", "ml"])
            else:
                o = wl.gen_recon(rng, src, src["id"])
        elif solves and r < 0.33:
            o = {
                "op": "touch",
                "src": rng.choice(solves[-6:])["id"],
                "how": rng.choice(["amp", "phase", "mean", "lat", "name", "weights", "opt", "clear"]),
            }
        elif r < 0.43:
            o = copy.deepcopy(rng.choice(pool))
            o["op"] = "bad"
            o["how"] = rng.choice(wl.BAD)
        elif r < 0.51:
            o = copy.deepcopy(rng.choice(pool))
            o["op"] = "cancel"
            o["seed"] = rng.randrange(1 << 30)
        elif r < 0.57:
            o = wl.gen_solve(rng, mc=True, auto=False)
        else:
            o = copy.deepcopy(rng.choice(pool))
            if solves and rng.random() < 0.4:
                o["reuse"] = rng.choice(solves[-4:])["id"]
        o["id"] = k
        ops.append(o)
        if o["op"] == "solve":
            solves.append(o)
    return {"ops": ops}


def touch(coef, how):
    """The owner of a result changes it."""
    two = "Lsmaj" in coef
    if how == "amp":
        for k in ("A", "Lsmaj", "Lsmin"):
            if k in coef:
                coef[k] *= 1.5
    elif how == "phase":
        coef["g"] += 11.0
    elif how == "mean":
        for k in ("mean", "umean", "vmean"):
            if k in coef:
                coef[k] = coef[k] + 3.0
    elif how == "lat":
        coef["aux"]["lat"] = -12.5
    elif how == "name":
        coef["name"][:] = coef["name"][::-1].copy()
    elif how == "weights":
        coef["weights"][:] = -7.0
        coef["aux"]["frq"] *= 1.0001
    elif how == "opt":
        o = coef["aux"]["opt"]
        nested = o["newopts"].get("robust_kw") if "newopts" in o else None
        if isinstance(nested, dict):
            nested["weight_function"] = "ols"
        o["newopts"]["conf_int"] = "none"
        o["newopts"]["trend"] = False
        o["prefilt"].append(0)
        del o["prefilt"][:]
    elif how == "clear":
        g = coef["g"]
        coef["g"] = g + 0.0
        g[:] = np.nan
        if two:
            coef["aux"]["lind"] = coef["aux"]["lind"].copy()


def _chain(op, ops, upto):
    """ops that decide the outcome of op (its source and what was done to it)"""
    if op["op"] != "recon":
        return [op]
    by = {o["id"]: o for o in ops}
    out = [by[op["src"]]]
    for o in ops[:upto]:
        if o["op"] == "touch" and o["src"] == op["src"]:
            out.append(o)
    return [*out, op]


def run_chain(payload):
    from .. import target

    utide = target.load()
    wl.quiet()
    objs = {}
    last = None
    for op in payload["ops"]:
        if op["op"] == "touch":
            try:
                touch(objs[op["src"]], op["how"])
            except Exception:
                pass
            continue
        last = wl.outcome(op, utide, objs)
        objs[op["id"]] = last[1]
    return (last[0], snap(last[1]) if last[0] == "ok" else last[1])


def count_lines(payload):
    from .. import target

    utide = target.load()
    wl.quiet()
    try:
        c = wl.solve_call(payload["op"], utide)
    except Exception:
        return []
    lp = LineProbe(collect=True)
    with lp:
        try:
            c()
        except Exception:
            pass
    return lp.locs


def _reuse(c, old):
    """Overwrite the caller's old argument objects with the new contents."""
    n = 0
    args = []
    for a, b in zip(c.args, old.args, strict=False):
        if (
            type(a) is np.ndarray
            and type(b) is np.ndarray
            and a.shape == b.shape
            and a.dtype == b.dtype
            and b.flags.writeable
        ):
            np.copyto(b, a)
            args.append(b)
            n += 1
        else:
            args.append(a)
    args += list(c.args[len(args) :])
    c.args = tuple(args)
    for k, v in list(c.kwargs.items()):
        w = old.kwargs.get(k)
        if isinstance(v, list) and isinstance(w, list):
            w[:] = v
            c.kwargs[k] = w
            n += 1
        elif isinstance(v, dict) and isinstance(w, dict):
            w.clear()
            w.update(v)
            c.kwargs[k] = w
            n += 1
    return n


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    pristine = Pristine()
    try:
        _execute(sc, ctx, pristine, utide)
    finally:
        pristine.close()




def _frozen_diff(a, b):
    return [x for x in diff(a, b) if ".aux.opt" not in x and ".t_in" not in x and ".t_mpl" not in x]


def _execute(sc, ctx, pristine, utide):

    wl.quiet()
    ops = sc["ops"]
    objs = {}
    frozen = {}
    calls = {}
    okcount = 0
    prev = "start"
    for pos, op in enumerate(ops):
        kind = op["op"]
        ctx.state(kind, prev, op.get("mut"), op.get("how"))
        prev = kind
        if kind == "touch":
            if op["src"] in objs:
                try:
                    touch(objs[op["src"]], op["how"])
                except Exception:
                    pass
                frozen[op["src"]] = snap(objs[op["src"]])
                ctx.faults["result modified in place by its owner"] += 1
                _check_frozen(ctx, frozen, objs, f"the owner changed result {op['src']}")
            continue
        if kind == "cancel":
            locs = pristine.run(count_lines, {"op": {**op, "op": "solve"}})
            if not locs:
                continue
            from .c01 import pick

            k, _ = pick(locs, op["seed"])
            c = wl.solve_call({**op, "op": "solve"}, utide)
            lp = LineProbe(k, KeyboardInterrupt("cancelled"))
            with lp:
                try:
                    c()
                except KeyboardInterrupt:
                    pass
                except Exception:
                    pass
            ctx.faults["cancelled call"] += lp.fired is not None
            ctx.log("cancel", pos, lp.fired)
            continue
        if kind == "recon" and op["src"] not in objs:
            continue
        try:
            c = wl.materialise(op, utide, objs)
        except Exception as e:
            got = ("err", type(e).__name__)
            c = None
        if c is not None:
            if "reuse" in op and op["reuse"] in calls:
                ctx.faults["argument buffer reused in place"] += _reuse(c, calls[op["reuse"]])
                # whoever else was given those buffers sees the change; results must not
            try:
                got = ("ok", c())
            except Exception as e:
                got = ("err", type(e).__name__)
            calls[op["id"]] = c
        want = pristine.run(run_chain, {"ops": _chain(op, ops, pos)})
        ctx.calls[kind] += 1
        ctx.log(pos, kind, got[0])
        if got[0] == "err":
            ctx.faults["failing call"] += 1
        if got[0] != want[0] or (got[0] == "err" and got[1] != want[1]):
            ctx.fail(
                "history",
                f"call {pos} ({kind}): after {pos} earlier calls {got[0]} "
                f"{got[1] if got[0] == 'err' else ''}; in a fresh process {want[0]} "
                f"{want[1] if want[0] == 'err' else ''}",
            )
        if got[0] == "ok":
            s = snap(got[1])
            d = diff(s, want[1], **wl.TOL)
            if d:
                ctx.fail(
                    "history",
                    f"call {pos} ({kind}, {op.get('mut')}) differs from the same call in a "
                    f"fresh process: {d[:4]}",
                )
            objs[op["id"]] = got[1]
            frozen[op["id"]] = s
            okcount += 1
        _check_frozen(ctx, frozen, objs, f"call {pos} ({kind})")
    ctx.nontrivial = okcount >= 5 and sum(ctx.faults.values()) > 0
    ctx.probes["histories of 30 or more calls"] += len(ops) >= 30
    ctx.probes["MC calls"] += sum(o.get("np_seed") is not None for o in ops)
    ctx.probes["2-D calls"] += sum(o.get("rec", {}).get("two", False) for o in ops)


def _check_frozen(ctx, frozen, objs, by):
    for k, s in frozen.items():
        d = _frozen_diff(s, snap(objs[k]))
        if d:
            ctx.fail("result-changed", f"result of call {k} changed when {by}: {d[:4]}")


def shrink(sc, rep):
    ops = sc["ops"]
    n = len(ops)
    step = max(1, n // 2)
    while True:
        for a in range(0, n, step):
            gone = {o["id"] for o in ops[a : a + step]}
            left = [
                o
                for o in ops
                if o["id"] not in gone and o.get("src") not in gone and o.get("reuse") not in gone
            ]
            if left and len(left) < n:
                c = copy.deepcopy(sc)
                c["ops"] = copy.deepcopy(left)
                yield c
        if step == 1:
            break
        step //= 2
    for i, o in enumerate(ops):
        if o["op"] == "solve":
            for v in wl.shrink_solve(o):
                c = copy.deepcopy(sc)
                c["ops"][i] = v
                yield c


_ = rng_for
