"""
C23  A request that makes no sense is refused, never answered.

A service receives requests over a network that corrupts some of them: letters of option
names, option values, constituents and epochs change, arrays arrive truncated, keys are
lost.  Every corrupted request must raise an ordinary exception; every intact one, before
and after, is answered as if it were alone.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import workload as wl
from ..compare import diff, snap
from ..core import HarnessError, rng_for
from ..isolate import Pristine

ID = "C23"
COUNTS = {"quick": 260, "thorough": 5000}
LIMIT = 120.0
RULE = (
    "4-10 requests (solve, reconstruct) of which half are corrupted in transit in one of 30 ways; non-trivial: a "
    "corrupted request was refused and an intact one answered after it"
)
STATES = "distinct (kind of corruption, request)"
REAL = ["utide (all modules, unmodified)", "numpy, pandas"]
STUB = ["network that corrupts requests"]
ASSUMPTIONS = [
    "judged: arguments whose validity the documentation settles; not judged: switches (trend, white), "
    "numbers out of range, subsets or repetitions in order_constit, unknown names in reconstruct's constit",
]
OPTS = ["constit", "order_constit", "conf_int", "method", "trend", "phase", "nodal", "infer", "MC_n", "Rayleigh_min",
        "robust_kw", "white", "verbose", "epoch", "lat", "u", "v", "t"]
ROPTS = ["t", "coef", "epoch", "verbose", "constit", "min_SNR", "min_PE"]
CHOICES = {
    "conf_int": ["linear", "MC", "none"],
    "method": ["ols", "robust"],
    "phase": ["Greenwich", "linear_time", "raw"],
    "nodal": ["linear_time"],
    "order_constit": ["PE", "SNR", "frequency"],
}
WF = ["andrews", "bisquare", "cauchy", "fair", "huber", "logistic", "ols", "talwar", "welsch"]
SOLVE_BAD = ["key", "conf_int", "method", "phase", "nodal", "order_constit", "weight", "robust_key", "name", "infer_name",
             "infer_ref", "order_name", "t_short", "u_short", "v_short", "infer_len", "infer_key", "lat", "epoch",
             "snr_order", "mc_infer", "empty", "all_missing", "two_dim", "dates_epoch", "scalar_t"]
RECON_BAD = ["key", "epoch", "two_dim", "field", "dates_epoch"]


def generate(rng, tier, i):
    ops = []
    base = wl.gen_solve(rng, two=rng.random() < 0.5)
    good = copy.deepcopy(base)
    good["id"] = 0
    ops.append(good)
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        k = len(ops)
        if r < 0.45:
            o = wl.sibling(rng, base) if rng.random() < 0.6 else wl.gen_solve(rng)
            o["id"] = k
            o["bad"] = rng.choice(SOLVE_BAD)
            o["bseed"] = rng.randrange(1 << 30)
        elif r < 0.6:
            o = wl.gen_recon(rng, base, 0)
            o["id"] = k
            o["bad"] = rng.choice(RECON_BAD)
            o["bseed"] = rng.randrange(1 << 30)
        elif r < 0.8:
            o = wl.gen_recon(rng, base, 0)
            o["id"] = k
        else:
            o = wl.sibling(rng, base)
            o["id"] = k
        ops.append(o)
    return {"ops": ops}


def typo(rng, s, valid):
    """s with one letter changed, lost, doubled or swapped, so that it is none of the valid words."""
    for _ in range(100):
        x = list(s)
        k = rng.randrange(len(x))
        how = rng.randrange(5)
        if how == 0:
            x[k] = rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
        elif how == 1:
            del x[k]
        elif how == 2:
            x.insert(k, x[k])
        elif how == 3:
            x[k] = x[k].swapcase()
        elif len(x) > 1:
            x[k - 1], x[k] = x[k], x[k - 1]
        y = "".join(x)
        if y and y not in valid and y.isidentifier():
            return y
    return s + "_x"


def bad_name(rng, s):
    for _ in range(100):
        y = typo(rng, "X" + s, [])[1:] or "Q"
        if y not in rm.NAMES:
            return y
    return "XX9"


def corrupt(op, call, rng):
    """Damage the call in place; -> description or None (does not apply)."""
    how = op["bad"]
    kw = call.kwargs
    args = list(call.args)
    what = None
    if op["op"] == "recon":
        if how == "key":
            k = rng.choice(["verbose", "constit", "min_SNR", "min_PE"])
            y = typo(rng, k, ROPTS)
            kw[y] = kw.pop(k, None)
            what = f"keyword {y}"
        elif how == "epoch":
            args[0] = np.arange(5.0)
            kw["epoch"] = typo(rng, rng.choice(["python", "matlab"]), ["python", "matlab"])
            what = f"epoch {kw['epoch']}"
        elif how == "two_dim":
            args[0] = np.zeros((2, 2)) + 735000.0
            kw["epoch"] = "python"
            what = "two-dimensional t"
        elif how == "field":
            c = copy.copy(args[1])
            two = "Lsmaj" in c
            k = rng.choice(["g", "aux"] + (["Lsmaj", "Lsmin", "theta", "umean", "vmean"] if two else ["A", "mean"]))
            c = dict(c)
            c.pop(k)
            args[1] = type(call.args[1])(c)
            what = f"coefficients without {k}"
        elif how == "dates_epoch":
            args[0] = np.array(["2000-01-01T00", "2000-01-01T01"], "datetime64[s]")
            kw["epoch"] = rng.choice(["python", "matlab", "1970-01-01"])
            what = "dates together with an epoch"
        call.args = tuple(args)
        return what
    t, u = args[0], args[1]
    v = args[2] if len(args) > 2 else None
    n = len(u)
    inf = kw.get("infer")
    m = 2 if v is not None else 1
    if how in ("infer_name", "infer_ref", "infer_len", "infer_key", "mc_infer") and not inf:
        if kw.get("constit") == "auto" or isinstance(kw.get("order_constit"), (list, tuple)):
            return None
        inf = kw["infer"] = {
            "inferred_names": ["K2", "P1"],
            "reference_names": ["S2", "K1"],
            "amp_ratios": [0.2] * 2 * m,
            "phase_offsets": [3.0] * 2 * m,
        }
    if how == "key":
        k = rng.choice(OPTS[:14])
        y = typo(rng, k, OPTS)
        kw[y] = kw.pop(k, None)
        what = f"keyword {y}"
        if k == "epoch":
            kw["epoch"] = kw[y]
    elif how in CHOICES:
        ok = CHOICES[how]
        kw[how] = typo(rng, rng.choice(ok), ok)
        what = f"{how}={kw[how]}"
    elif how == "weight":
        kw["method"] = "robust"
        kw["robust_kw"] = {"weight_function": typo(rng, rng.choice(WF), WF)}
        what = f"weight function {kw['robust_kw']}"
    elif how == "robust_key":
        ok = ["weight_function", "tune", "rcond", "tol", "maxit", "X", "y"]
        kw["method"] = "robust"
        kw["robust_kw"] = {typo(rng, "weight_function", ok): "cauchy"}
        what = f"robust_kw {kw['robust_kw']}"
    elif how == "name":
        if not isinstance(kw["constit"], list):
            kw["constit"] = ["M2", "K1"]
        c = list(kw["constit"])
        k = rng.randrange(len(c))
        c[k] = bad_name(rng, c[k])
        kw["constit"] = c
        what = f"constituents {c}"
    elif how in ("infer_name", "infer_ref"):
        f = "inferred_names" if how == "infer_name" else "reference_names"
        x = list(inf[f])
        k = rng.randrange(len(x))
        x[k] = bad_name(rng, x[k])
        inf[f] = x
        what = f"{f} {x}"
    elif how == "order_name":
        c = kw["constit"] if isinstance(kw["constit"], list) else None
        if c is None or inf:
            return None
        x = list(c)
        x[rng.randrange(len(x))] = bad_name(rng, x[0])
        kw["order_constit"] = x
        what = f"order_constit {x}"
    elif how in ("t_short", "u_short", "v_short"):
        k = {"t_short": 0, "u_short": 1, "v_short": 2}[how]
        if k == 2 and v is None:
            return None
        cut = rng.choice([1, 1, 2, n // 2])
        a = args[k]
        args[k] = a[: len(a) - cut]
        what = f"{'tuv'[k]} {cut} samples short"
    elif how == "infer_len":
        f = rng.choice(["inferred_names", "reference_names", "amp_ratios", "phase_offsets"])
        x = list(inf[f])
        inf[f] = x[:-1] if rng.random() < 0.5 else [*x, x[-1]]
        what = f"infer.{f} has {len(inf[f])} entries"
    elif how == "infer_key":
        k = rng.choice(["inferred_names", "reference_names", "amp_ratios", "phase_offsets"])
        x = inf.pop(k)
        if rng.random() < 0.5:
            inf[typo(rng, k, [*inf, k])] = x
        what = f"infer without {k}"
    elif how == "lat":
        if rng.random() < 0.5:
            kw.pop("lat")
        else:
            kw["lat"] = None
        what = "no latitude"
    elif how == "epoch":
        args[0] = np.arange(n) / 24.0
        kw["epoch"] = rng.choice([typo(rng, "python", ["python"]), typo(rng, "matlab", ["matlab"]), "2000-13-01", "2001-02-30", "soon", ""])
        what = f"epoch {kw['epoch']!r}"
    elif how == "snr_order":
        kw["conf_int"], kw["order_constit"] = "none", "SNR"
        what = "SNR order without intervals"
    elif how == "mc_infer":
        kw["conf_int"] = "MC"
        what = "Monte Carlo with inference"
    elif how == "empty":
        args = [a[:0] for a in args]
        what = "empty record"
    elif how == "all_missing":
        k = rng.randrange(1, len(args))
        args[k] = np.full(n, rng.choice([np.nan, np.nan, np.inf]))
        what = f"all {'tuv'[k]} missing"
        if rng.random() < 0.3:
            # never both components at one time
            part = np.arange(n) % rng.choice([2, 3]) == 0
            args[1] = np.where(part, np.nan, 1.0)
            args[-1] = np.where(part, 1.0, np.nan) if len(args) == 3 else np.full(n, np.nan)
            what = "no time with valid values"
        elif rng.random() < 0.2:
            args[k] = np.ma.array(np.ones(n), mask=True)
        elif rng.random() < 0.2:
            args[0], kw["epoch"] = np.full(n, np.nan), "python"
            what = "all times missing"
    elif how == "two_dim":
        if n % 2:
            args = [a[:-1] for a in args]
        args = [np.asarray(a).reshape(2, -1) for a in args]
        what = "two-dimensional arrays"
    elif how == "dates_epoch":
        args[0] = np.datetime64("2001-01-01", "s") + np.arange(n) * np.timedelta64(3600, "s")
        kw["epoch"] = rng.choice(["python", "matlab", "1970-01-01"])
        what = "dates together with an epoch"
    elif how == "scalar_t":
        args[0] = 735000.0
        what = "a single time"
    else:
        raise HarnessError(how)
    call.args = tuple(args)
    return what


def execute(sc, ctx):
    from .. import target

    pristine = Pristine()
    try:
        utide = target.load()
        wl.quiet()
        objs = {}
        refused = False
        for op in sc["ops"]:
            if op["op"] == "recon" and op["src"] not in objs:
                continue
            if op.get("bad"):
                call = wl.materialise(op, utide, objs)
                what = corrupt(op, call, rng_for("bad", op["bseed"]))
                if what is None:
                    continue
                ctx.faults[f"corrupted request: {op['op']} {op['bad']}"] += 1
                ctx.calls["solve" if op["op"] == "solve" else "reconstruct"] += 1
                try:
                    r = call()
                except Exception as e:
                    ctx.log("refused", op["op"], op["bad"], type(e).__name__)
                    ctx.state(op["op"], op["bad"], what)
                    refused = True
                    continue
                except BaseException as e:
                    ctx.fail("refusal", f"{op['op']} with {what} ended in {type(e).__name__}")
                brief = {k: np.asarray(r[k])[:2].tolist() for k in ("A", "Lsmaj", "h", "u") if k in r}
                ctx.fail("answered", f"{op['op']} with {what} was answered: {brief}")
            ctx.calls["solve" if op["op"] == "solve" else "reconstruct"] += 1
            got = wl.outcome(op, utide, objs)
            want = wl.alone(pristine, op, sc["ops"])
            if got[0] != want[0] or (got[0] == "err" and got[1] != want[1]):
                ctx.fail("intact-request", f"{op['op']} {op['id']}: {got[0]}, alone {want[0]}")
            if got[0] == "ok":
                d = diff(want[1], snap(got[1]), **wl.TOL)
                if d:
                    ctx.fail("intact-request", f"{op['op']} {op['id']}: {d[:3]}")
                objs[op["id"]] = got[1]
                ctx.nontrivial = ctx.nontrivial or refused
    finally:
        pristine.close()


def shrink(sc, rep):
    for ops in wl.shrink_ops(sc["ops"]):
        yield {"ops": ops}
