"""
C13  Coefficients are self-contained and survive a restart.

A station process solves records and keeps the coefficients by the usual means (pickle in
every protocol, deep and shallow copies, plain nested dictionaries, npz and npy archives,
JSON), doing other work in between.  At an arbitrary point it crashes: only what was
stored survives.  A restarted process, which may have done other work first, predicts
from what it loads; predictions must be those of the original process and those the
constants themselves describe.  What was loaded is independent of the original.
"""

import copy
import io
import json
import pickle

import numpy as np

from .. import fresh
from .. import workload as wl
from ..compare import diff, snap
from ..isolate import Pristine

ID = "C13"
COUNTS = {"quick": 320, "thorough": 5000}
LIMIT = 150.0
RULE = (
    "1-3 solved records (all option sets, also inference, robust, Monte Carlo), each stored by 1-3 "
    "means, other calls in between, crash, restart in a process that may do other calls first; "
    "non-trivial: at least one prediction was made after a restart from stored coefficients"
)
STATES = "distinct (option set, storage means, restart history)"
REAL = ["utide (all modules, unmodified)", "numpy", "pickle, copy, json, npz", "process start"]
STUB = ["disk (in-memory store that survives the crash)", "crash (only stored bytes are handed over)"]
ASSUMPTIONS = ["a store is atomic: torn stores are the user's own business and fail to load"]
MEANS = ["pickle0", "pickle1", "pickle2", "pickle3", "pickle4", "pickle5", "deepcopy", "copy", "bunch",
         "dict", "plain", "npz", "npy", "json", "pickle5", "deepcopy", "flat", "flat", "flat0"]


# ---------------------------------------------------------------- storage means
def plain(d):
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    return copy.deepcopy(d)


def to_json(o):
    if isinstance(o, dict):
        return {k: to_json(v) for k, v in o.items()}
    if isinstance(o, np.ndarray):
        if o.dtype.kind == "c":
            return {"__c__": [o.real.tolist(), o.imag.tolist()]}
        return {"__a__": o.tolist(), "d": o.dtype.str if o.dtype.kind != "O" else "O"}
    if isinstance(o, np.generic):
        return o.item() if not np.iscomplexobj(o) else repr(o)
    if isinstance(o, (list, tuple)):
        return [to_json(x) for x in o]
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    return repr(o)


def from_json(o):
    if isinstance(o, dict):
        if "__a__" in o:
            return np.array(o["__a__"], dtype=o["d"])
        if "__c__" in o:
            return np.array(o["__c__"][0]) + 1j * np.array(o["__c__"][1])
        return {k: from_json(v) for k, v in o.items()}
    if isinstance(o, list):
        return [from_json(x) for x in o]
    return o


def flatten(d, pre=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(flatten(v, f"{pre}{k}."))
        else:
            out[pre + k] = v
    return out


def unflatten(z, scalars):
    out = {}
    for key in z:
        *path, k = key.split(".")
        d = out
        for x in path:
            d = d.setdefault(x, {})
        v = z[key]
        if v.shape == () and (scalars or v.dtype == object):
            v = v[()]
        d[k] = v
    return out


def store(coef, means):
    """-> bytes"""
    if means.startswith("pickle"):
        return pickle.dumps(coef, protocol=int(means[6:]))
    if means == "npy":
        f = io.BytesIO()
        a = np.empty((), object)
        a[()] = coef
        np.save(f, a, allow_pickle=True)
        return f.getvalue()
    if means == "npz":
        f = io.BytesIO()
        np.savez_compressed(f, **coef)
        return f.getvalue()
    if means.startswith("flat"):
        # one level of names, as an archive or data set of arrays wants it
        f = io.BytesIO()
        np.savez(f, **flatten(coef))
        return f.getvalue()
    if means == "json":
        return json.dumps(to_json(coef)).encode()
    if means == "deepcopy":
        return pickle.dumps(copy.deepcopy(coef))
    if means == "copy":
        return pickle.dumps(copy.copy(coef))
    if means == "bunch":
        return pickle.dumps(type(coef)(coef))
    if means == "dict":
        return pickle.dumps(dict(coef))
    if means == "plain":
        return pickle.dumps(plain(coef))
    raise ValueError(means)


def fetch(b, means):
    if means == "npy":
        return np.load(io.BytesIO(b), allow_pickle=True)[()]
    if means == "npz":
        z = np.load(io.BytesIO(b), allow_pickle=True)
        # 0-d object arrays hold nested dictionaries
        return {k: (z[k].item() if z[k].dtype == object and z[k].shape == () else z[k]) for k in z}
    if means.startswith("flat"):
        # elements come back as numpy scalars, or as arrays of no dimension
        return unflatten(np.load(io.BytesIO(b), allow_pickle=True), means == "flat")
    if means == "json":
        return from_json(json.loads(b))
    return pickle.loads(b)


# ---------------------------------------------------------------- scenario
def generate(rng, tier, i):
    jobs = []
    for k in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if k and r < 0.5:
            op = wl.sibling(rng, jobs[0]["op"])
        else:
            op = wl.gen_solve(rng, mc=rng.random() < 0.12)
        op["id"] = k
        recs = []
        for _ in range(rng.choice([1, 1, 2])):
            ro = wl.gen_recon(rng, op, k)
            ro["t"]["n"] = rng.choice([1, 7, 30])
            if rng.random() < 0.3:
                ro["t"]["nans"] = [0]
            recs.append(ro)
        jobs.append({"op": op, "means": [rng.choice(MEANS) for _ in range(rng.choice([1, 2, 3]))], "recs": recs})
    return {
        "jobs": jobs,
        "late": rng.random() < 0.5,  # store after all the work, or at once
        "others": [wl.gen_solve(rng) for _ in range(rng.choice([0, 0, 1, 2]))],
        "fresh": rng.random() < 0.12,
        "hashseed": rng.randrange(1, 1000),
        "scribble": rng.random() < 0.5,
        "crash_after": rng.randint(1, len(jobs)),
        "seed": rng.randrange(1 << 30),
    }


def restart(payload):
    """In a new process: other work, then load and predict."""
    from .. import target

    utide = target.load()
    wl.quiet()
    for op in payload["others"]:
        try:
            wl.solve_call(op, utide)()
        except Exception:
            pass
    out = []
    for b, means, recs in payload["stored"]:
        try:
            c = fetch(b, means)
        except Exception as e:
            out.append(("load", f"{type(e).__name__}: {e}"))
            continue
        res = []
        for ro in recs:
            try:
                res.append(("ok", snap(wl.recon_call(ro, utide, c)())))
            except Exception as e:
                res.append(("err", f"{type(e).__name__}: {e}"))
        out.append(("ok", snap(c), res))
    return out


def scribble(d, depth=0):
    """the owner overwrites everything in its object"""
    for k in list(d):
        v = d[k]
        if isinstance(v, dict):
            scribble(v, depth + 1)
        elif isinstance(v, np.ndarray) and v.dtype.kind in "fiuc" and v.size:
            try:
                v[...] = 0 if v.dtype.kind in "iu" else np.nan
            except ValueError:
                pass
        elif isinstance(v, list):
            v[:] = ["overwritten"]
    if depth == 0:
        d.clear()


def execute(sc, ctx):
    from .. import target

    pristine = Pristine()
    try:
        _execute(sc, ctx, pristine, target.load())
    finally:
        pristine.close()


def _execute(sc, ctx, pristine, utide):
    wl.quiet()
    done = []
    for k, job in enumerate(sc["jobs"][: sc["crash_after"]]):
        ctx.calls["solve"] += 1
        kind, coef = wl.outcome(job["op"], utide, {})
        if kind != "ok":
            ctx.log("solve", k, coef)
            continue
        d = {"job": job, "coef": coef, "stored": [], "preds": []}
        if not sc["late"]:
            keep(d, ctx)
        for ro in job["recs"]:
            ctx.calls["reconstruct"] += 1
            d["preds"].append(predict(utide, ro, coef))
        done.append(d)
    if sc["late"]:
        for d in done:
            keep(d, ctx)
    # live copies: in-process, independent of the original
    for d in done:
        copies = [("deepcopy", copy.deepcopy(d["coef"])), ("pickle", pickle.loads(pickle.dumps(d["coef"])))]
        before = snap(d["coef"])
        for how, c in copies:
            if type(c) is not type(d["coef"]):
                ctx.fail("copy", f"{how} of the coefficients is a {type(c).__name__}")
            dd = diff(before, snap(c))
            if dd:
                ctx.fail("copy", f"{how} of the coefficients differs: {dd[:3]}")
        if sc["scribble"]:
            ctx.faults["original overwritten after copying"] += 1
            scribble(d["coef"])
            how, c = copies[0]
        else:
            ctx.faults["copy overwritten"] += 1
            scribble(copies[0][1])
            how, c = "original", d["coef"]
        dd = diff(before, snap(c))
        if dd:
            ctx.fail("shared", f"{how} changed when its {'original' if sc['scribble'] else 'copy'} was overwritten: {dd[:3]}")
        for ro, want in zip(d["job"]["recs"], d["preds"], strict=True):
            compare(ctx, f"in-process {how}", want, predict(utide, ro, c))
        d["before"] = before
    # crash: nothing but the stored bytes survives
    stored = [(b, m, d["job"]["recs"]) for d in done for m, b in d["stored"]]
    if not stored:
        return
    ctx.faults["crash and restart"] += 1
    payload = {"others": sc["others"], "stored": stored}
    if sc["fresh"]:
        ctx.faults["restart in a fresh interpreter with another hash seed"] += 1
        got = fresh.run(restart, payload, env={"PYTHONHASHSEED": str(sc["hashseed"])})
    else:
        got = pristine.run(restart, payload)
    k = 0
    for d in done:
        for means, _ in d["stored"]:
            g = got[k]
            k += 1
            if g[0] == "load":
                ctx.fail("load", f"coefficients stored by {means} do not load: {g[1]}")
            if means not in ("json", "npz", "flat", "flat0", "dict", "plain", "bunch"):
                dd = diff(d["before"], g[1])
                if dd:
                    ctx.fail("stored", f"coefficients stored by {means} came back different: {dd[:3]}")
            for want, have in zip(d["preds"], g[2], strict=True):
                compare(ctx, f"restarted from {means}", want, have, loose=means == "json")
            ctx.probes["predictions after a restart"] += len(g[2])
            ctx.nontrivial = True
            o = d["job"]["op"]["opts"]
            ctx.state(means, sc["fresh"], len(sc["others"]), sorted(map(str, o.items())))
    ctx.log([(m, len(b)) for b, m, _ in stored if m not in ("npz", "flat", "flat0")])


def keep(d, ctx):
    for m in d["job"]["means"]:
        try:
            d["stored"].append((m, store(d["coef"], m)))
        except Exception as e:
            ctx.fail("store", f"coefficients cannot be stored by {m}: {type(e).__name__}: {e}")
        ctx.probes[f"stored by {m}"] += 1


def predict(utide, ro, coef):
    try:
        return ("ok", snap(wl.recon_call(ro, utide, coef)()))
    except Exception as e:
        return ("err", f"{type(e).__name__}: {e}")


def compare(ctx, who, want, have, loose=False):
    if want[0] != have[0]:
        ctx.fail("prediction", f"{who}: {have[0]} {str(have[1])[:200]} instead of {want[0]} {str(want[1])[:200]}")
    if want[0] == "ok":
        dd = diff(want[1], have[1], rtol=1e-9, atol=1e-9)
        if dd:
            ctx.fail("prediction", f"{who}: {dd[:3]}")


def shrink(sc, rep):
    if len(sc["jobs"]) > 1:
        for k in range(len(sc["jobs"])):
            c = copy.deepcopy(sc)
            del c["jobs"][k]
            c["crash_after"] = len(c["jobs"])
            yield c
    for k, simple in (("others", []), ("fresh", False), ("late", False), ("scribble", False)):
        if sc[k] != simple:
            c = copy.deepcopy(sc)
            c[k] = simple
            yield c
    for j, job in enumerate(sc["jobs"]):
        if len(job["means"]) > 1:
            for m in job["means"]:
                c = copy.deepcopy(sc)
                c["jobs"][j]["means"] = [m]
                yield c
        if len(job["recs"]) > 1:
            c = copy.deepcopy(sc)
            c["jobs"][j]["recs"] = job["recs"][:1]
            yield c
        for o in wl.shrink_solve(job["op"]):
            c = copy.deepcopy(sc)
            c["jobs"][j]["op"] = o
            for r in c["jobs"][j]["recs"]:
                if "constit" in r["kw"]:
                    r["kw"].pop("constit")
            yield c


