"""
C20  Diagnostics, ordering and selection are consistent with the constants.

A solution is asked for in every order, and predicted from in every selection, by several
servers that each hold a part: the rows are the same whatever their order, percent energies
and signal-to-noise ratios are those of the constants and intervals reported beside them,
a prediction uses exactly the constituents that meet the thresholds, and the predictions
of servers that each hold some constituents add up to the whole, whatever is lost or late.
"""

import copy

import numpy as np

from .. import refmodel as rm
from .. import station as st
from .. import workload as wl
from ..core import EventLoop, rng_for

ID = "C20"
COUNTS = {"quick": 700, "thorough": 8000}
LIMIT = 90.0
RULE = (
    "one noisy record (all option sets, inference, robust, MC), solved in 2-4 orders, predicted from by thresholds, by "
    "name and by 2-4 servers that answer late, twice and after restarts; non-trivial: a selection left out at "
    "least one constituent and kept at least one"
)
STATES = "distinct (option set, selection, assignment of constituents to servers)"
REAL = ["utide (all modules, unmodified)", "numpy"]
STUB = ["prediction servers, network and coordinator (event simulation)", "tide gauge (synthetic record with gaps)"]
ASSUMPTIONS = ["without intervals (conf_int='none') thresholds are not applied, by design of the code"]
FIELDS = ["A", "A_ci", "g", "g_ci", "Lsmaj", "Lsmaj_ci", "Lsmin", "Lsmin_ci", "theta", "theta_ci", "PE", "SNR"]


def generate(rng, tier, i):
    base = wl.gen_solve(rng, mc=rng.random() < 0.15, reps=False)
    base["opts"].pop("order_constit", None)
    if base["opts"]["conf_int"] == "MC":
        base["opts"]["white"] = True  # the coloured estimate may lack spectral lines, and then raises
    if rng.random() < 0.4:
        base["rec"]["noise"] = rng.choice([1.0, 3.0])
    if rng.random() < 0.15 and base["opts"]["conf_int"] != "MC":
        # a short record with slow constituents: no spectral line of the band is free,
        # and their intervals are not known
        base["opts"].update(
            constit=["M2", "K1", *rng.sample(["MM", "MSF", "MF", "MSM"], rng.choice([2, 3, 3, 4])), *rng.sample(["O1", "M4"], rng.randint(0, 2))],
            conf_int="linear", white=False,
        )
        base["opts"].pop("infer", None)
        base["rec"]["names"] = ["M2", "K1", "MSF"][: len(base["rec"]["names"])]
        for k in ("amps", "phs"):
            base["rec"][k] = base["rec"][k][: len(base["rec"]["names"])]
            base["rec"]["names"] = base["rec"]["names"][: len(base["rec"][k])]
    sel = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["snr", "pe", "both", "names", "names", "default", "none"])
        sel.append({"kind": k, "snr": rng.choice([0.5, 2, 10, 100, 1e4, 0]), "pe": rng.choice([0.1, 1, 10, 30, 0]),
                    "pick": rng.randrange(1 << 30), "as": rng.choice(["list", "tuple", "array", "objarray"])})
        if k in ("snr", "pe", "both"):
            # a threshold next to a value that occurs
            for x in ("snr", "pe"):
                if rng.random() < 0.6:
                    sel[-1]["at_" + x] = [rng.random(), rng.choice([1 - 1e-3, 1 + 1e-3])]
    return {
        "base": base,
        "orders": rng.sample(["PE", "SNR", "frequency", "list", "default"], rng.randint(2, 4)),
        "perm": rng.randrange(1 << 30),
        "sel": sel,
        "t": wl.gen_tspec(rng, base["rec"], n=rng.choice([3, 10, 25])),
        "servers": rng.randint(2, 4),
        "net": {
            "seed": rng.randrange(1 << 30),
            "loss": rng.choice([0, 0.2, 0.5]),
            "dup": rng.choice([0, 0.3]),
            "delay": rng.choice([0.1, 1.0, 5.0]),
            "crash": rng.choice([0, 0, 1, 2]),
        },
    }


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    wl.quiet()
    base = sc["base"]
    sols = {}
    names = None
    for order in sorted(sc["orders"], key=lambda x: x == "list"):
        if order == "SNR" and base["opts"]["conf_int"] == "none":
            continue
        op = copy.deepcopy(base)
        if order == "list":
            if names is None:
                op["opts"]["conf_int"] = "none"
                r = solve(op, utide, ctx)
                names = sorted(map(str, r["name"]))
                op["opts"]["conf_int"] = base["opts"]["conf_int"]
            p = np.random.Generator(np.random.PCG64(sc["perm"])).permutation(len(names))
            op["opts"]["order_constit"] = [names[j] for j in p]
        elif order != "default":
            op["opts"]["order_constit"] = order
        c = solve(op, utide, ctx)
        sols[order] = c
        names = sorted(map(str, c["name"]))
        check_one(c, op, order, ctx)
    keys = list(sols)
    if not keys:
        return
    c0 = sols[keys[0]]
    tab = table(c0)
    for k in keys[1:]:
        other = table(sols[k])
        if set(other) != set(tab):
            ctx.fail("order", f"order {k}: constituents {sorted(other)} instead of {sorted(tab)}")
        for n, row in tab.items():
            for f, x in row.items():
                y = other[n].get(f, x)
                if not np.isclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True):
                    ctx.fail("order", f"{n}: {f} is {x} in order {keys[0]} and {y} in order {k}")
    ctx.log("orders", keys, len(tab))
    unknown = sum("SNR" in row and not np.isfinite(row["SNR"]) for row in tab.values())
    if unknown:
        ctx.probes["intervals of some constituents unknown"] += 1
    rows = list(tab)
    c = sols[keys[-1]]
    rng = rng_for("c20", sc["perm"])
    t = wl.build_tspec(sc["t"])
    t = t[np.isfinite(t)]
    whole = term(c, t, list(tab), base, utide, ctx)
    for s in sc["sel"]:
        s = dict(s)
        for x in ("snr", "pe"):
            val = sorted(v for v in (row.get(x.upper(), np.nan) for row in tab.values()) if np.isfinite(v) and v > 0)
            if "at_" + x in s and val:
                where, off = s["at_" + x]
                s[x] = val[int(where * len(val))] * off
                ctx.probes[f"{x} threshold next to a value"] += 1
        keep, kw = selection(s, c, tab, base)
        ctx.calls["reconstruct"] += 1
        try:
            r = utide.reconstruct(t, c, epoch="python", verbose=False, **kw)
        except Exception as e:
            ctx.fail("unexpected-exception", f"reconstruct {kw}: {type(e).__name__}: {e}")
        if keep is None:
            ctx.probes["threshold too close to call"] += 1
            continue
        if 0 < len(keep) < len(tab):
            ctx.nontrivial = True
        got = r["u"] + 1j * r["v"] if "u" in r else r["h"]
        want = synth(c, t, keep, base)
        tol = 1e-6 * (1 + float(np.abs(want).max()))
        if got.shape != want.shape or not np.all(np.abs(got - want) <= tol):
            ctx.fail(
                "selection",
                f"{kw}: prediction off by {np.abs(got - want).max():.3g} from that of the {len(keep)} of {len(tab)} "
                f"constituents that qualify ({sorted(keep)[:8]})",
            )
        ctx.state(s["kind"], sorted(keep), sorted(map(str, base["opts"].items())))
        ctx.probes[f"selection by {s['kind']}"] += 1
    # servers that each hold a part
    groups = [[] for _ in range(sc["servers"])]
    for n in rows:
        groups[rng.randrange(len(groups))].append(n)
    parts = gather(sc, ctx, [(lambda g=g: term(c, t, g, base, utide, ctx)) for g in groups])
    empty = term(c, t, [], base, utide, ctx)
    total = sum(p - empty for p in parts) + empty
    if not np.all(np.abs(total - whole) <= 1e-8 * (1 + np.abs(whole).max())):
        ctx.fail("parts", f"predictions of {len(groups)} servers add up to something {np.abs(total - whole).max():.3g} off the whole")


def solve(op, utide, ctx):
    ctx.calls["solve"] += 1
    try:
        return wl.solve_call(op, utide)()
    except Exception as e:
        ctx.fail("unexpected-exception", f"solve {op['opts']}: {type(e).__name__}: {e}")


def term(c, t, names, base, utide, ctx):
    ctx.calls["reconstruct"] += 1
    r = utide.reconstruct(t, c, epoch="python", verbose=False, constit=list(names))
    return r["u"] + 1j * r["v"] if "u" in r else r["h"]


def table(c):
    return {str(n): {f: float(c[f][j]) for f in FIELDS if f in c} | {"frq": float(c["aux"]["frq"][j]), "lind": float(c["aux"]["lind"][j])}
            for j, n in enumerate(c["name"])}


def check_one(c, op, order, ctx):
    n = len(c["name"])
    two = "Lsmaj" in c
    for f in FIELDS:
        if f in c and np.shape(c[f]) != (n,):
            ctx.fail("rows", f"{f} has shape {np.shape(c[f])} for {n} constituents")
    need = (["Lsmaj", "Lsmin", "theta"] if two else ["A"]) + ["g"]
    if op["opts"]["conf_int"] != "none" or order in ("PE", "default"):
        need.append("PE")
    if op["opts"]["conf_int"] != "none":
        need += [x + "_ci" for x in need if x != "PE"] + ["SNR"]
    miss = [x for x in need if x not in c]
    if miss:
        ctx.fail("rows", f"{miss} missing from the result")
    # names, indices and frequencies belong together
    fr = rm.freqs(float(c["aux"]["reftime"]))
    for j, nm in enumerate(c["name"]):
        k = rm.INDEX[str(nm)]
        if int(c["aux"]["lind"][j]) != k or abs(c["aux"]["frq"][j] - fr[k]) > 1e-9:
            ctx.fail("rows", f"{nm}: index {c['aux']['lind'][j]} (should be {k}), frequency {c['aux']['frq'][j]} ({fr[k]})")
    E = c["Lsmaj"] ** 2 + c["Lsmin"] ** 2 if two else c["A"] ** 2
    PE = 100 * E / E.sum()
    if "PE" in c and (not np.allclose(c["PE"], PE, rtol=1e-9, atol=1e-12) or abs(np.sum(c["PE"]) - 100) > 1e-6):
        ctx.fail("percent-energy", f"PE {c['PE']} but the constants give {PE}")
    if "SNR" in need:
        ci = (c["Lsmaj_ci"], c["Lsmin_ci"]) if two else (c["A_ci"],)
        with np.errstate(all="ignore"):
            SNR = E / sum((x / 1.96) ** 2 for x in ci)
        if not np.allclose(c["SNR"], SNR, rtol=1e-9, equal_nan=True):
            ctx.fail("snr", f"SNR {c['SNR']} but constants and intervals give {SNR}")
    key = {"PE": lambda: -c["PE"], "default": lambda: -c["PE"], "frequency": lambda: c["aux"]["frq"],
           "SNR": lambda: -c["SNR"]}.get(order)
    if key:
        d = np.diff(key())
        if (d[np.isfinite(d)] < 0).any():
            ctx.fail("order", f"order {order}: not sorted: {key()}")
    else:
        if list(map(str, c["name"])) != op["opts"]["order_constit"]:
            ctx.fail("order", f"order {list(c['name'])} instead of {op['opts']['order_constit']}")
    if "diagn" in c:
        d = c["diagn"]
        # sorted by energy
        x = np.asarray(d["PE"])
        if (np.diff(x) > 1e-9).any() or not np.allclose(np.sort(x), np.sort(c["PE"]), atol=1e-9):
            ctx.fail("percent-energy", f"diagn.PE {x} is not the descending PE")
        if sorted(map(str, d["name"])) != sorted(map(str, c["name"])):
            ctx.fail("rows", "diagn.name lists other constituents")
        by = dict(zip(map(str, c["name"]), c["PE"], strict=True))
        if not np.allclose(x, [by[str(k)] for k in d["name"]], atol=1e-9):
            ctx.fail("percent-energy", "diagn.PE does not belong to diagn.name")
        if "SNR" in c:
            by = dict(zip(map(str, c["name"]), c["SNR"], strict=True))
            if not np.allclose(d["SNR"], [by[str(k)] for k in d["name"]], rtol=1e-9, equal_nan=True):
                ctx.fail("snr", "diagn.SNR does not belong to diagn.name")


def selection(s, c, tab, base):
    """-> names that qualify (None: too close to call), arguments"""
    k = s["kind"]
    if k == "names":
        r = rng_for("pick", s["pick"])
        names = sorted(tab)
        keep = r.sample(names, r.randint(1, len(names)))
        ask = keep + [n for n in ("MSQM", "ALP1") if n not in tab]
        r.shuffle(ask)
        ask = {"list": list, "tuple": tuple, "array": np.array,
               "objarray": lambda x: np.array(x, dtype=object)}[s["as"]](ask)
        return keep, {"constit": ask, **({"min_SNR": s["snr"]} if s["pick"] % 2 else {})}
    snr = {"snr": s["snr"], "both": s["snr"], "pe": 0, "none": 0}.get(k, 2)
    pe = {"pe": s["pe"], "both": s["pe"]}.get(k, 0)
    kw = {} if k == "default" else {"min_SNR": snr, "min_PE": pe}
    if base["opts"]["conf_int"] == "none" or (snr == 0 and pe == 0):
        return list(tab), kw
    keep = []
    for n, row in tab.items():
        for x, lim in ((row["SNR"], snr), (row["PE"], pe)):
            if np.isfinite(x) and abs(x - lim) <= 1e-6 * abs(lim) and lim:
                return None, kw
        if row["SNR"] >= snr and row["PE"] >= pe:
            keep.append(n)
    return keep, kw


def synth(c, t, keep, base):
    """The reference model's prediction from the reported constants."""
    two = "Lsmaj" in c
    o = base["opts"]
    idx = [list(map(str, c["name"])).index(n) for n in keep]
    tr = {"names": list(keep), "g": np.asarray(c["g"])[idx]}
    slope = o.get("trend", True)
    for k in ("mean", "umean", "vmean"):
        if k in c:
            tr[k] = float(c[k])
    for k in ("slope", "uslope", "vslope"):
        tr[k] = float(c[k]) if slope and k in c else 0.0
    for k in ("A", "Lsmaj", "Lsmin", "theta"):
        if k in c:
            tr[k] = np.asarray(c[k])[idx]
    u, v = rm.synth(t, float(c["aux"]["reftime"]), tr, o["lat"], o.get("nodal", True), o.get("phase", "Greenwich"))
    return u + 1j * v if two else u


def gather(sc, ctx, jobs):
    """A coordinator asks each server for its part until all have answered."""
    net = sc["net"]
    rng = rng_for("net", net["seed"])
    loop = EventLoop()
    got = {}
    down = {}
    for _ in range(net["crash"]):
        k = rng.randrange(len(jobs))
        a = rng.uniform(0, 10)
        down[k] = (a, a + rng.uniform(1, 15))
        ctx.faults["server crash and restart"] += 1

    def up(k):
        return k not in down or not down[k][0] <= loop.now < down[k][1]

    def send(fn):
        for _ in range(2 if rng.random() < net["dup"] else 1):
            if rng.random() < net["loss"] and loop.now < 60:
                ctx.faults["message lost"] += 1
                continue
            loop.after(rng.random() * net["delay"], fn)

    def serve(k):
        if not up(k):
            ctx.faults["request lost: server down"] += 1
            return
        ans = jobs[k]()
        send(lambda: answer(k, ans))

    def answer(k, ans):
        if k in got:
            ctx.faults["duplicate answer"] += 1
        got[k] = ans

    def ask(k):
        if k in got:
            return
        if loop.now > 200:
            ctx.fail("parts", f"server {k} never answered")
        send(lambda: serve(k))
        loop.after(net["delay"] * 3, lambda: ask(k))

    for k in range(len(jobs)):
        ask(k)
    loop.run()
    ctx.log("gather", sorted(got), round(loop.now, 6))
    return [got[k] for k in range(len(jobs))]


def shrink(sc, rep):
    if len(sc["sel"]) > 1:
        for s in sc["sel"]:
            yield {**copy.deepcopy(sc), "sel": [copy.deepcopy(s)]}
    if len(sc["orders"]) > 1:
        for s in sc["orders"]:
            yield {**copy.deepcopy(sc), "orders": [x for x in sc["orders"] if x != s]}
    for k, simple in (("loss", 0), ("dup", 0), ("crash", 0), ("delay", 0.1)):
        if sc["net"][k] != simple:
            c = copy.deepcopy(sc)
            c["net"][k] = simple
            yield c
    for o in wl.shrink_solve(sc["base"]):
        yield {**copy.deepcopy(sc), "base": o}


_ = st
