"""
C03  The caller's arguments and the public tables are never modified.

Every argument object of a call (times, values, v, option lists and dicts, the
coefficient Bunch given to reconstruct) and the public constituent tables are compared
bit by bit before and after the call, for calls that complete, fail, are cancelled at a
chosen source line, or lose a kernel/allocation in the middle.  Read-only arguments must
do equally well, and what was returned must not change when the caller later overwrites
its own buffers.
"""

import copy

import numpy as np

from .. import inject
from .. import workload as wl
from ..compare import diff, snap
from ..isolate import Pristine
from ..sched import LineProbe
from .c01 import pick

ID = "C03"
COUNTS = {"quick": 520, "thorough": 9000}
LIMIT = 90.0
RULE = (
    "one or two solve calls and one to three reconstruct calls on generated records in "
    "every container/time representation, with gaps, inference, robust and order lists; "
    "faults: cancellation at a visited source line, failing numpy kernel or allocation, "
    "invalid argument; non-trivial: at least one argument was mutable and the call got "
    "as far as the package"
)
STATES = "distinct (op, representation, fault, option set) combinations"
REAL = ["utide (all modules, unmodified)", "numpy", "scipy", "pandas containers"]
STUB = ["cancellation", "failing numpy entry points"]
ASSUMPTIONS = [
    "objects echoed in a result by documentation (t_in, t_mpl) or as a record of the "
    "options (coef.aux.opt) may be the caller's own objects",
]


def generate(rng, tier, i):
    ops = []
    for k in range(rng.choice([1, 1, 2])):
        mc = rng.random() < 0.1
        s = wl.gen_solve(rng, mc=mc, auto=not mc)
        if rng.random() < 0.6:
            s["rep"] = {"t": rng.choice([*wl.T_REPS, "pydta"]), "u": rng.choice(wl.U_REPS)}
        if rng.random() < 0.4 and not s["rec"]["nans"]:
            wl.add_gaps(rng, s["rec"], kinds=["nans"])
        s["tmask"] = rng.choice([None, None, None, "ma", "nan", "ma0"])
        if s["tmask"] and s["rep"]["t"] not in ("py", "ml", "ep:1992-03-01"):
            s["rep"]["t"] = rng.choice(["py", "ml", "ep:1992-03-01"])
        s["freeze"] = rng.random() < 0.2
        s["int_u"] = rng.random() < 0.05
        if "infer" in s["opts"]:
            s["infer_as"] = rng.choice(["dict", "bunch", "bunch", "full", "arrays"])
        s["id"] = len(ops)
        if rng.random() < 0.12:
            s["op"] = "bad"
            s["how"] = rng.choice(wl.BAD)
        elif rng.random() < 0.15:
            wl.wildify(rng, s)
        ops.append(s)
        if s["op"] == "solve":
            for _ in range(rng.choice([0, 1, 1, 2])):
                o = wl.gen_recon(rng, s, s["id"])
                if rng.random() < 0.3:
                    o["t"]["rep"] = rng.choice(["py", "ml", "ep:1992-03-01"])
                    o["t"]["nans"] = [0] if rng.random() < 0.5 else [o["t"]["n"] // 2]
                o["tmask"] = rng.choice([None, None, "ma"])
                if o["tmask"]:
                    o["t"]["rep"] = "py"
                o["freeze"] = rng.random() < 0.2
                o["id"] = len(ops)
                ops.append(o)
    for o in ops:
        r = rng.random()
        if r < 0.25:
            o["fault"] = {"kind": "cancel", "seed": rng.randrange(1 << 30)}
        elif r < 0.45:
            o["fault"] = {"kind": "kernel", "seed": rng.randrange(1 << 30)}
    return {"ops": ops}


def materialise(op, utide, objs):
    c = wl.materialise(op, utide, objs)
    t = c.args[0]
    if op.get("tmask") and isinstance(t, np.ndarray) and t.dtype.kind == "f" and len(t) > 4:
        if op["tmask"] == "nan":
            t = t.copy()
            t[2] = np.nan
        elif op["tmask"] == "ma":
            t = np.ma.array(t, mask=np.arange(len(t)) == 3)
            t.data[3] = -1e30
        else:
            t = np.ma.array(t)
        c.args = (t, *c.args[1:])
    if op.get("int_u") and op["op"] == "solve":
        c.args = (
            c.args[0],
            *(
                np.round(np.nan_to_num(np.asarray(x)) * 100).astype(int)
                for x in c.args[1:]
            ),
        )
    inf = c.kwargs.get("infer") if op["op"] == "solve" else None
    if isinstance(inf, dict) and op.get("infer_as", "dict") != "dict":
        inf = utide.utilities.Bunch(inf)
        inf.pop("approximate", None)
        if op["infer_as"] == "full":
            inf["approximate"] = False
        elif op["infer_as"] == "arrays":
            inf = {k: np.array(v) for k, v in inf.items()}
        c.kwargs["infer"] = inf
    if op.get("freeze"):
        for x in c.args:
            freeze(x)
    return c


def freeze(x, depth=0):
    """Make every ndarray reachable from x read-only."""
    if isinstance(x, np.ma.MaskedArray):
        x.data.setflags(write=False)
        np.ma.getmaskarray(x).setflags(write=False)
    elif isinstance(x, np.ndarray):
        x.setflags(write=False)
    elif isinstance(x, dict) and depth < 6:
        for v in x.values():
            freeze(v, depth + 1)
    elif isinstance(x, (list, tuple)) and depth < 6:
        for v in x:
            freeze(v, depth + 1)


def deep(x, memo):
    """Snapshot including the storage behind views and masked arrays."""
    if isinstance(x, np.ma.MaskedArray):
        return {
            "ma": True,
            "data": np.array(x.data, copy=True),
            "mask": np.array(np.ma.getmaskarray(x), copy=True),
            "hasmask": x.mask is not np.ma.nomask,
            "fill": repr(x._fill_value),
            "hard": x.hardmask,
        }
    if isinstance(x, np.ndarray):
        base = x
        while isinstance(base.base, np.ndarray):
            base = base.base
        d = {"shape": x.shape, "dtype": str(x.dtype), "flags": x.flags.writeable}
        d["buf"] = snap(base)
        return d
    if isinstance(x, (list, tuple)) and len(x) > 50:
        return (type(x).__name__, len(x), repr(x))
    if isinstance(x, dict):
        return {
            "type": type(x).__name__,
            "order": [str(k) for k in x],
            "items": {str(k): deep(v, memo) for k, v in x.items()},
        }
    if isinstance(x, (list, tuple)):
        return {"type": type(x).__name__, "items": [deep(v, memo) for v in x]}
    return snap(x)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b, strict=True))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return a == b or (a != a and b != b)


def where(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return f"{path}.{k} (appeared or vanished)"
            if not same(a[k], b[k]):
                return where(a[k], b[k], f"{path}.{k}")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b, strict=True)):
            if not same(x, y):
                return where(x, y, f"{path}[{k}]")
    return f"{path}: {str(a)[:60]} -> {str(b)[:60]}"


def sites(payload):
    """Pristine: visited lines and intercepted kernels of the last op of a chain."""
    from .. import target

    utide = target.load()
    wl.quiet()
    objs = {}
    ops = payload["ops"]
    for o in ops[:-1]:
        objs[o["id"]] = materialise(o, utide, objs)()
    try:
        c = materialise(ops[-1], utide, objs)
    except Exception:
        return []
    if payload["kind"] == "cancel":
        lp = LineProbe(collect=True)
        with lp:
            try:
                c()
            except Exception:
                pass
        return lp.locs
    of = inject.OpFaults(collect=True)
    with of:
        try:
            c()
        except Exception:
            pass
    return of.sites


def run_plain(payload):
    from .. import target

    utide = target.load()
    wl.quiet()
    objs = {}
    for o in payload["ops"]:
        try:
            objs[o["id"]] = materialise(o, utide, objs)()
        except Exception:
            return "err"
    return "ok"


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    pristine = Pristine()
    try:
        _execute(sc, ctx, pristine, utide)
    finally:
        pristine.close()


def numeric(s):
    """the numbers of a result, without what it echoes of the caller's objects"""
    if isinstance(s, dict) and isinstance(s.get("items"), dict):
        return {
            "__dict__": s["__dict__"],
            "items": {
                k: numeric(v)
                for k, v in s["items"].items()
                if k not in ("opt", "t_in", "t_mpl", "epoch", "constit")
            },
        }
    return s


def _execute(sc, ctx, pristine, utide):
    wl.quiet()
    objs = {}
    tables = inject.tables_snapshot(utide)
    by = {o["id"]: o for o in sc["ops"]}
    for op in sc["ops"]:
        if op["op"] == "recon" and op["src"] not in objs:
            continue
        c = materialise(op, utide, objs)
        fault = op.get("fault")
        chain = [by[op["src"]], op] if op["op"] == "recon" else [op]
        k = None
        if fault:
            locs = pristine.run(
                sites,
                {
                    "ops": [{x: y for x, y in o.items() if x != "fault"} for o in chain],
                    "kind": fault["kind"],
                },
            )
            if locs:
                k, loc = pick(locs, fault["seed"])
        before = [deep(x, {}) for x in c.args], deep(c.kwargs, {})
        result = None
        try:
            if k is not None and fault["kind"] == "cancel":
                lp = LineProbe(k, KeyboardInterrupt("cancelled"))
                try:
                    with lp:
                        result = c()
                finally:
                    ctx.faults["cancelled call"] += lp.fired is not None
            elif k is not None:
                of = inject.OpFaults(k, MemoryError("cannot allocate"))
                try:
                    with of:
                        result = c()
                finally:
                    ctx.faults["failing kernel or allocation"] += of.fired is not None
            else:
                result = c()
            how = "completed"
        except KeyboardInterrupt:
            how = "cancelled"
        except Exception as e:
            how = f"raised {type(e).__name__}"
            if op.get("freeze") and k is None and op["op"] != "bad":
                plain = [{x: y for x, y in o.items() if x not in ("fault", "freeze")} for o in chain]
                if pristine.run(run_plain, {"ops": plain}) == "ok":
                    ctx.fail(
                        "read-only-rejected",
                        f"{op['op']} with read-only arguments raised {type(e).__name__}: {e}",
                    )
            if not fault and op["op"] == "bad":
                ctx.faults["invalid argument"] += 1
        after = [deep(x, {}) for x in c.args], deep(c.kwargs, {})
        ctx.calls[op["op"]] += 1
        ctx.log(op["id"], op["op"], how, fault and fault["kind"])
        ctx.state(op["op"], op.get("rep"), how, sorted(op.get("opts", {})), op.get("tmask"))
        ctx.nontrivial = True
        if not same(before, after):
            names = ["t", "u" if op["op"] != "recon" else "coef", "v"]
            for nm, a, b in zip(names, before[0], after[0], strict=False):
                if not same(a, b):
                    ctx.fail("argument-modified", f"{op['op']} {how}: argument {nm}{where(a, b)}")
            ctx.fail(
                "argument-modified",
                f"{op['op']} {how}: option {where(before[1], after[1])}",
            )
        if result is None:
            continue
        if op["op"] == "solve":
            objs[op["id"]] = result
        if op.get("freeze"):
            ctx.probes["read-only arguments accepted"] += 1
        # the caller now overwrites what it passed in; the result must not move
        if op["op"] == "solve":
            s = numeric(snap(result))
            n = 0
            for x in c.args:
                n += scribble(x)
            for x in c.kwargs.values():
                n += scribble(x)
            ctx.faults["caller overwrites its buffers afterwards"] += n > 0
            d = diff(s, numeric(snap(result)))
            if d:
                ctx.fail("result-aliases-argument", f"solve result changed with its arguments: {d[:3]}")
        else:
            keep = {x: snap(result[x]) for x in ("h", "u", "v") if x in result}
            coef = c.args[1]
            g = np.array(coef["g"], copy=True)
            if coef["g"].flags.writeable:
                coef["g"] += 1.0
                for x in ("h", "u", "v"):
                    if x in result and diff(keep[x], snap(result[x])):
                        ctx.fail("result-aliases-argument", "prediction changed with coef")
                coef["g"][:] = g
            scribble(c.args[0])
            for x in ("h", "u", "v"):
                if x in result and diff(keep[x], snap(result[x])):
                    ctx.fail("result-aliases-argument", "prediction changed with t")
    if not same(tables, inject.tables_snapshot(utide)):
        d = where(tables, inject.tables_snapshot(utide))
        ctx.fail("tables-modified", f"public tables: {d}")


def scribble(x):
    if isinstance(x, np.ma.MaskedArray):
        if x.data.flags.writeable:
            x.data[...] = 3
            return 1
        return 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fi":
            x[...] = 3
            return 1
        return 0
    if isinstance(x, list):
        x.reverse()
        return 1
    if isinstance(x, dict):
        n = 0
        for v in x.values():
            n += scribble(v)
        return n
    if type(x).__name__ == "Series" and x.dtype.kind == "f":
        try:
            x.iloc[:] = 3.0
            return 1
        except Exception:
            return 0
    return 0


def shrink(sc, rep):
    for i in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            c = copy.deepcopy(sc)
            k = c["ops"][i]["id"]
            c["ops"] = [o for o in c["ops"] if o["id"] != k and o.get("src") != k]
            if c["ops"]:
                yield c
    for i, o in enumerate(sc["ops"]):
        for key in ("fault", "tmask", "freeze", "int_u"):
            if o.get(key):
                c = copy.deepcopy(sc)
                c["ops"][i].pop(key)
                yield c
        if o["op"] == "solve":
            for v in wl.shrink_solve(o):
                c = copy.deepcopy(sc)
                c["ops"][i] = v
                yield c
