"""
C06  Randomness is confined to the Monte Carlo intervals and is reproducible.

The global numpy stream (the only source of randomness the package may use) is put
under control: its state is set, recorded and compared around every call.  Calls that do
not ask for Monte Carlo intervals leave it alone whether they complete, fail or are
cancelled; Monte Carlo calls are a function of arguments and stream state, advance the
stream instead of resetting it, and never let it reach the point estimates -- also when
other threads make calls at the same time.
"""

import copy
import random

import numpy as np

from .. import inject
from .. import workload as wl
from ..compare import diff, snap
from ..core import rng_for
from ..isolate import Pristine
from ..sched import LineProbe, Scheduler, make_policy
from .c01 import pick
from .c05 import lines

ID = "C06"
COUNTS = {"quick": 420, "thorough": 7000}
LIMIT = 90.0
RULE = (
    "sequences of Monte Carlo and other calls interleaved with the user's own draws and "
    "re-seedings, one in four with the calls on concurrently scheduled threads; "
    "non-trivial: at least one Monte Carlo call completed and was compared"
)
STATES = "distinct (step kind, option set) sequences"
REAL = ["utide (all modules, unmodified)", "numpy random generator", "scipy"]
STUB = ["state of the random streams", "choice of the running thread", "cancellation"]
ASSUMPTIONS = ["Monte Carlo draws come from the global numpy stream, as in the code today"]

CI = ("A_ci", "g_ci", "Lsmaj_ci", "Lsmin_ci", "theta_ci")
POINT = ("A", "g", "Lsmaj", "Lsmin", "theta", "mean", "slope", "umean", "vmean", "uslope", "vslope")


def generate(rng, tier, i):
    mc = wl.gen_solve(rng, mc=True, auto=rng.random() < 0.15)
    mc["opts"].pop("infer", None)
    if mc["opts"].get("order_constit") == "SNR":
        mc["opts"].pop("order_constit")  # the order itself may then depend on the stream
    mc["np_seed"] = None
    sc = {
        "mc": mc,
        "seeds": [rng.randrange(1 << 31) for _ in range(2)],
        "others": [],
        "threads": rng.random() < 0.3,
        "policy": rng.choice(
            [
                {"kind": "rand", "p": 0.02},
                {"kind": "rand", "p": 0.2},
                {"kind": "rr", "k": 5},
                {"kind": "rr", "k": 50},
            ],
        ),
        "pseed": rng.randrange(1 << 30),
    }
    for k in range(rng.choice([1, 2, 2, 3])):
        o = wl.sibling(rng, mc) if rng.random() < 0.5 else wl.gen_solve(rng)
        if o["opts"]["conf_int"] == "MC":
            o["opts"]["conf_int"] = rng.choice(["linear", "none"])
        o["np_seed"] = None
        if rng.random() < 0.2:
            o["op"], o["how"] = "bad", rng.choice([x for x in wl.BAD if x != "mcinfer"])
        elif rng.random() < 0.25:
            o["cancel"] = rng.randrange(1 << 30)
        elif rng.random() < 0.15:
            wl.wildify(rng, o)
        o["id"] = 100 + k
        sc["others"].append(o)
        if o["op"] == "solve" and rng.random() < 0.4:
            r = wl.gen_recon(rng, o, o["id"])
            r["id"] = 200 + k
            sc["others"].append(r)
    mc["id"] = 0
    return sc


def mc_seeded(payload):
    """Pristine: the MC call alone under the given stream seed."""
    from .. import target

    utide = target.load()
    wl.quiet()
    c = wl.solve_call(payload["op"], utide)
    np.random.seed(payload["seed"])
    try:
        return ("ok", snap(c()))
    except Exception as e:
        return ("err", type(e).__name__)


def part(s, keys):
    return {k: v for k, v in s["items"].items() if k in keys}


def pdiff(a, b, keys, **tol):
    out = []
    for k in keys:
        if (k in a["items"]) != (k in b["items"]):
            out.append(f"{k} only on one side")
        elif k in a["items"]:
            diff(a["items"][k], b["items"][k], path=k, out=out, **tol)
    return out


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    pristine = Pristine()
    try:
        _execute(sc, ctx, pristine, utide)
    finally:
        pristine.close()


def _run_other(o, objs, utide, ctx, pristine):
    """a call that did not ask for Monte Carlo, watched"""
    if o["op"] == "recon" and o["src"] not in objs:
        return
    lp = None
    if "cancel" in o:
        locs = pristine.run(lines, {"ops": [{k: v for k, v in o.items() if k != "cancel"}]})
        if locs:
            k, _ = pick(locs, o["cancel"])
            lp = LineProbe(k, KeyboardInterrupt("cancelled"))
    c = wl.materialise(o, utide, objs)
    a = inject.rng_state()
    try:
        if lp:
            with lp:
                r = c()
        else:
            r = c()
        how = "completed"
        objs[o["id"]] = r
    except KeyboardInterrupt:
        how = "cancelled"
        ctx.faults["cancelled call"] += 1
    except Exception as e:
        how = f"raised {type(e).__name__}"
        ctx.faults["failing call"] += 1
    b = inject.rng_state()
    ctx.calls[o["op"]] += 1
    ctx.log("other", o["id"], how)
    ctx.state(o["op"], how, sorted(o.get("opts", {})))
    if a != b:
        ctx.fail(
            "stream-touched",
            f"{o['op']} conf_int={o.get('opts', {}).get('conf_int')} {how} and changed the "
            "global random stream",
        )


def _execute(sc, ctx, pristine, utide):
    wl.quiet()
    objs = {}
    mc = sc["mc"]
    s1, s2 = sc["seeds"]
    random.seed(s2)
    want1 = pristine.run(mc_seeded, {"op": mc, "seed": s1})
    if want1[0] != "ok":
        return
    want2 = pristine.run(mc_seeded, {"op": mc, "seed": s2})
    np.random.seed(s2)

    for o in sc["others"]:
        _run_other(o, objs, utide, ctx, pristine)

    def call():
        ctx.calls["solve MC"] += 1
        return snap(wl.solve_call(mc, utide)())

    # same state, same intervals; elsewhere in the program's history and process
    np.random.seed(s1)
    user0 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    pr = random.getstate()
    r1 = call()
    if random.getstate() != pr:
        ctx.fail("stream-touched", "a Monte Carlo call changed the random module's stream")
    st = np.random.get_state()
    after = st[1].tobytes(), st[2]
    r1b = call()  # next draws of the same stream
    ctx.faults["stream re-seeded by the user"] += 2
    d = diff(r1, want1[1], **wl.TOL)
    if d:
        ctx.fail("not-reproducible", f"same seed, fresh process, different result: {d[:4]}")
    np.random.seed(s1)
    r1c = call()
    st2 = np.random.get_state()
    if diff(r1, r1c, **wl.TOL):
        ctx.fail("not-reproducible", f"same seed twice: {diff(r1, r1c, **wl.TOL)[:4]}")
    if (st2[1].tobytes(), st2[2]) != after:
        ctx.fail("not-reproducible", "same seed twice leaves the stream in different states")
    if after == user0:
        ctx.fail(
            "stream-reset",
            "a Monte Carlo call left the global stream where it was: the next call and "
            "the user's next draws repeat the same numbers",
        )
    d = pdiff(r1, r1b, CI, **wl.TOL)
    if not d:
        ctx.fail("stream-reset", "two successive Monte Carlo calls drew the same numbers")
    if not pdiff(r1, want2[1], CI, **wl.TOL):
        ctx.fail("seed-ignored", "two different seeds give the same Monte Carlo intervals")
    # nor may any one constituent's interval be drawn from a stream of its own
    for what, other, cls in (("the next call", r1b, "stream-reset"), ("another seed", want2[1], "seed-ignored")):
        for key in CI:
            if key in r1["items"]:
                x, y = np.asarray(r1["items"][key]), np.asarray(other["items"][key])
                eq = (x == y) & (x > 0) if x.shape == y.shape else np.zeros(0, bool)
                if eq.any():
                    ctx.fail(cls, f"{key} of constituents {np.flatnonzero(eq)[:5]} is the same with {what}")
    np.random.seed(s2)
    call()
    st3 = np.random.get_state()
    if (st3[1].tobytes(), st3[2]) == after:
        ctx.fail("stream-reset", "whatever the seed, the call leaves the stream in the same state")
    # the stream never reaches the point estimates
    lin = copy.deepcopy(mc)
    lin["opts"]["conf_int"] = "linear"
    lin2 = copy.deepcopy(mc)
    lin2["opts"]["conf_int"] = "none"
    for what, other in (
        ("another seed", want2[1]),
        ("conf_int='linear'", snap(wl.solve_call(lin, utide)())),
        ("conf_int='none'", snap(wl.solve_call(lin2, utide)())),
    ):
        d = pdiff(r1, other, POINT, **wl.TOL)
        if d:
            ctx.fail("point-estimates-random", f"MC versus {what}: {d[:4]}")
    for k in CI:
        if k in r1["items"]:
            x = np.asarray(r1["items"][k])
            if not (np.isfinite(x).all() and (x >= 0).all()):
                ctx.fail("interval-invalid", f"Monte Carlo {k} = {x[:5]}")
    ctx.nontrivial = True
    ctx.log("mc", sorted(mc["opts"]))
    ctx.state("mc", sorted(mc["opts"]), mc["rec"]["two"])
    if sc["threads"]:
        _threads(sc, ctx, utide, want1)


def _threads(sc, ctx, utide, want):
    """The Monte Carlo call on one thread, other calls on the others."""
    s = Scheduler(make_policy(sc["policy"], rng_for("c06", sc["pseed"])))
    others = [o for o in sc["others"] if o["op"] == "solve" and "cancel" not in o and not o.get("wild")][:2]
    if not others:
        return
    res = {}
    mc_call = wl.solve_call(sc["mc"], utide)
    other_calls = [wl.solve_call(o, utide) for o in others]
    np.random.seed(sc["seeds"][0])

    def body(tid):
        c = mc_call if tid == 0 else other_calls[tid - 1]
        s.enter(tid)
        try:
            r = ("ok", c())
        except Exception as e:
            r = ("err", type(e).__name__)
        s.leave(tid)
        res[tid] = (r[0], snap(r[1]))

    s.run([body] * (1 + len(others)))
    ctx.faults["preemption inside a call"] += len(s.switch_locs)
    ctx.log("threads", s.switches[:500])
    ctx.probes["Monte Carlo call interleaved with other threads"] += 1
    if s.deadlock or s.over:
        ctx.fail("no-progress", "concurrent Monte Carlo call did not finish")
    got = res[0]
    d = [f"{got[0]} {got[1]}"] if got[0] != "ok" else diff(got[1], want[1], **wl.TOL)
    if d:
        ctx.fail(
            "stream-touched-concurrently",
            f"Monte Carlo call with non-Monte-Carlo calls on other threads: {d[:4]}",
        )


def shrink(sc, rep):
    for i in range(len(sc["others"])):
        c = copy.deepcopy(sc)
        k = c["others"][i]["id"]
        c["others"] = [o for o in c["others"] if o["id"] != k and o.get("src") != k]
        yield c
    if sc["threads"]:
        c = copy.deepcopy(sc)
        c["threads"] = False
        yield c
    for v in wl.shrink_solve(sc["mc"]):
        if v["opts"]["conf_int"] == "MC":
            c = copy.deepcopy(sc)
            c["mc"] = v
            yield c
    for i, o in enumerate(sc["others"]):
        if o["op"] == "solve":
            for v in wl.shrink_solve(o):
                c = copy.deepcopy(sc)
                c["others"][i] = v
                yield c
