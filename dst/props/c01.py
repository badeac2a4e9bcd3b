"""
C01  Concurrent calls are isolated from each other.

Caller threads (the simulated parties) run programs of solve/reconstruct calls; the
token scheduler decides at every source line (or byte code) of the package who runs.
Oracle: the outcome of every call equals the outcome of the same call made alone, in a
process where nothing else happened (pristine fork); no dead-lock, no livelock; a call
made after the storm is still right.  Faults: pre-emption at any line, stalled threads,
cancelled threads, shared argument objects, near-identical concurrent requests.
"""

import copy

from .. import workload as wl
from ..compare import diff, snap
from ..core import rng_for
from ..isolate import Pristine
from ..sched import LineProbe, Scheduler, make_policy

ID = "C01"
COUNTS = {"quick": 420, "thorough": 6000}
LIMIT = 120.0
RULE = (
    "2-4 caller threads x 1-3 calls each (solve/reconstruct, 1-D/2-D, siblings that "
    "differ in one detail, shared coefficient Bunches and argument objects), schedule "
    "policy drawn per run (random pre-emption, round robin, stalls at a chosen source "
    "line, serial); non-trivial: at least 2 threads were inside calls at the same time "
    "and at least one switch happened inside a call"
)
STATES = "distinct (thread, source line, next thread) context switches taken inside calls"
REAL = ["utide (all modules, unmodified)", "numpy", "scipy", "CPython threads (parked)"]
STUB = ["choice of the running thread", "locks created by utide", "cancellation"]
ASSUMPTIONS = [
    "pre-emption inside numpy/scipy C code and between them is not modelled; switches "
    "happen at line or byte-code boundaries of the package's own code",
    "at most one concurrent call uses the (documented, global) numpy random stream",
]


def generate(rng, tier, i):
    nt = rng.choice([2, 2, 2, 3, 4])
    base = wl.gen_solve(rng, gaps=rng.random() < 0.5)
    if base["rec"]["n"] > 420:
        base["rec"]["n"] = 420
        base["rec"]["drops"] = [x for x in base["rec"]["drops"] if x[1] < 410]
        base["rec"]["nans"] = [x for x in base["rec"]["nans"] if x[1] < 410]
        base["opts"].pop("infer", None)
        base["opts"].pop("order_constit", None)
        base["opts"]["constit"] = [
            x for x in wl.names_for(17) if rng.random() < 0.4
        ] or ["M2", "K1"]
        base["rec"]["names"] = ["M2", "K1"]
        base["rec"]["amps"] = [1.0, 0.5]
        base["rec"]["phs"] = [40.0, 200.0]
    ops, pre = [], []
    kid = 0
    # calls made before the storm; their results are shared by all threads
    for _ in range(rng.choice([0, 1, 1, 2])):
        o = base if not pre else wl.sibling(rng, base)
        o = copy.deepcopy(o)
        o["id"] = kid
        kid += 1
        pre.append(o)
    mc_at = (rng.randrange(nt), 0) if rng.random() < 0.12 else None
    for tid in range(nt):
        prog = []
        for j in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            solved = [o for o in prog if o["op"] == "solve"] + pre
            if mc_at == (tid, j):
                o = wl.gen_solve(rng, mc=True, auto=False)
                o["rec"]["n"] = min(o["rec"]["n"], 420)
                o["opts"]["constit"] = ["M2", "K1"]
                o["opts"].pop("order_constit", None)
                n = o["rec"]["n"]
                for key in ("drops", "nans"):
                    o["rec"][key] = [x for x in o["rec"][key] if x[1] < n - 2]
            elif r < 0.45 and solved:
                src = rng.choice(solved)
                o = wl.gen_recon(rng, src, src["id"])
            elif r < 0.85:
                o = wl.sibling(rng, base) if rng.random() < 0.75 else copy.deepcopy(base)
            else:
                o = copy.deepcopy(base)
                if rng.random() < 0.3:
                    o["op"] = "bad"
                    o["how"] = rng.choice(wl.BAD)
            o["id"] = kid
            kid += 1
            if rng.random() < 0.08:
                o["abort_seed"] = rng.randrange(1 << 30)
            prog.append(o)
        ops.append(prog)
    r = rng.random()
    if r < 0.45:
        pol = {"kind": "rand", "p": rng.choice([0.003, 0.02, 0.1, 0.4])}
    elif r < 0.6:
        pol = {"kind": "rr", "k": rng.choice([1, 2, 3, 7, 20, 60])}
    elif r < 0.95:
        pol = {
            "kind": "stallpick",
            "first": rng.randrange(nt),
            "picks": [
                {
                    "tid": rng.randrange(nt),
                    "seed": rng.randrange(1 << 30),
                    "calls": rng.choice([1, 1, 2]),
                }
                for _ in range(rng.choice([1, 1, 2, 3]))
            ],
        }
    else:
        pol = {"kind": "serial"}
    return {
        "pre": pre,
        "threads": ops,
        "policy": pol,
        "seed": rng.randrange(1 << 30),
        "opcodes": rng.random() < 0.12 and pol["kind"] != "stallpick",
        "share_args": rng.random() < 0.3,
    }


def probe_lines(payload):
    """Pristine: the source lines a program passes through, in order."""
    from .. import target

    utide = target.load()
    wl.quiet()
    objs = {}
    out = []
    ops = payload["pre"] + payload["prog"]
    inprog = {o["id"] for o in payload["prog"]}
    for o in ops:
        try:
            c = wl.materialise(o, utide, objs)
        except Exception:
            out.append((o["id"], []))
            continue
        if o["id"] in inprog:
            lp = LineProbe(collect=True)
            with lp:
                try:
                    objs[o["id"]] = c()
                except Exception:
                    pass
            out.append((o["id"], lp.locs))
        else:
            objs[o["id"]] = c()
    return [x for x in out if x[0] in inprog]


def pick(locs, seed):
    """a scheduling point: uniform over distinct lines, then over its visits"""
    r = rng_for("pick", seed)
    by = {}
    for k, loc in enumerate(locs):
        by.setdefault(tuple(loc), []).append(k + 1)
    if not by:
        return 1, None
    loc = sorted(by)[r.randrange(len(by))]
    return r.choice(by[loc]), loc


def execute(sc, ctx):
    from .. import target

    pristine = Pristine()
    try:
        _execute(sc, ctx, pristine, target.load())
    finally:
        pristine.close()


def _execute(sc, ctx, pristine, utide):
    wl.quiet()
    pre, threads = sc["pre"], sc["threads"]
    flat = pre + [o for p in threads for o in p]
    objs = {}
    for o in pre:
        kind, val = wl.outcome(o, utide, objs)
        if kind != "ok":
            return  # the sibling is not a valid call; nothing to share
        objs[o["id"]] = val
    # stall / abort points are chosen among the lines each program really visits
    need = set()
    pol = copy.deepcopy(sc["policy"])
    if pol["kind"] == "stallpick":
        need |= {p["tid"] for p in pol["picks"] if p["tid"] < len(threads)}
    need |= {t for t, p in enumerate(threads) if any("abort_seed" in o for o in p)}
    lines = {}
    for t in sorted(need):
        lines[t] = pristine.run(probe_lines, {"pre": pre, "prog": threads[t]})
    if pol["kind"] == "stallpick":
        stalls = []
        for p in pol["picks"]:
            if p["tid"] < len(threads):
                locs = [x for _, ls in lines[p["tid"]] for x in ls]
                k, _ = pick(locs, p["seed"])
                stalls.append({"tid": p["tid"], "k": k, "calls": p["calls"]})
        pol = {"kind": "stall", "first": pol["first"], "stalls": stalls}
    s = Scheduler(
        make_policy(pol, rng_for("policy", sc["seed"])),
        opcodes=bool(sc.get("opcodes")),
        step_cap=3_000_000,
    )
    inside = {"now": 0, "max": 0}
    results = {}
    shared = {}

    def make(o):
        c = wl.materialise(o, utide, objs)
        if sc.get("share_args") and o["op"] == "solve":
            # equal arguments of different threads are the same objects
            key = repr((o["rec"], o.get("rep")))
            if key in shared:
                c.args = shared[key].args
            else:
                shared[key] = c
        return c

    aborts = {}
    for t, prog in enumerate(threads):
        for o in prog:
            if "abort_seed" in o:
                ls = dict(lines[t]).get(o["id"], [])
                k, loc = pick(ls, o["abort_seed"])
                aborts[o["id"]] = {"k": k, "exc": KeyboardInterrupt("cancelled")}

    def body(tid):
        for o in threads[tid]:
            if o["op"] == "recon" and o["src"] not in objs:
                results[o["id"]] = ("skipped", None)
                continue
            try:
                c = make(o)
            except Exception as e:
                results[o["id"]] = ("err", type(e).__name__)
                continue
            inside["now"] += 1
            inside["max"] = max(inside["max"], inside["now"])
            ab = aborts.get(o["id"])
            s.enter(tid, ab)
            try:
                r = ("ok", c())
            except KeyboardInterrupt:
                r = ("cancelled", None)
            except Exception as e:
                r = ("err", type(e).__name__)
            s.leave(tid)
            inside["now"] -= 1
            if r[0] == "ok":
                objs[o["id"]] = r[1]
                r = ("ok", snap(r[1]))
            results[o["id"]] = r

    s.run([body] * len(threads))
    info = {"switches": s.switches, "switch_locs": [str(x) for x in s.switch_locs[:60]]}
    ctx.calls["solve/reconstruct"] += len(results) + len(pre)
    ctx.faults["preemption inside a call"] += len(s.switch_locs)
    if pol["kind"] == "stall":
        ctx.faults["stalled thread"] += s.policy.fired
    nab = len(getattr(s, "fired_aborts", []))
    ctx.faults["cancelled call"] += nab
    ctx.nontrivial = inside["max"] >= 2 and len(s.switch_locs) > 0
    for tid, loc, nxt in s.switch_locs:
        ctx.states.add(f"{tid}>{nxt}@{loc[0]}:{loc[1]}:{loc[2]}")
    ctx.log("switches", s.switches[:2000], s.total)
    ctx.log("outcomes", [(k, results[k][0]) for k in sorted(results)])
    if s.deadlock:
        ctx.fail("deadlock", "all remaining threads wait for locks", **info)
    if s.over:
        ctx.fail("no-progress", f"no completion within {s.step_cap} steps", **info)
    for prog in threads:
        for o in prog:
            got = results.get(o["id"])
            if got is None or got[0] in ("skipped", "cancelled"):
                continue
            if o["op"] == "recon":
                src = next(x for x in flat if x["id"] == o["src"])
                if src.get("abort_seed"):
                    src = {k: v for k, v in src.items() if k != "abort_seed"}
            want = wl.alone(pristine, o, flat)
            _same(ctx, "isolation", o, got, want, info)
    # afterwards, the library still works
    for o in flat[:1] + ([flat[-1]] if len(flat) > 1 else []):
        if o["op"] == "recon":
            continue
        kind, val = wl.outcome(o, utide, objs)
        got = (kind, snap(val) if kind == "ok" else val)
        _same(ctx, "aftermath", o, got, wl.alone(pristine, o, flat), info)
    ctx.probes["runs with >=2 calls in flight"] += inside["max"] >= 2
    ctx.probes["runs with byte-code granularity"] += bool(sc.get("opcodes"))
    ctx.probes["2-D calls"] += sum(o.get("rec", {}).get("two", False) for o in flat)


def _same(ctx, cls, o, got, want, info):
    if got[0] != want[0]:
        ctx.fail(
            cls,
            f"call {o['id']} ({o['op']}): concurrently {got[0]} "
            f"{got[1] if got[0] == 'err' else ''}, alone {want[0]} "
            f"{want[1] if want[0] == 'err' else ''}",
            **info,
        )
    if got[0] == "err":
        if got[1] != want[1]:
            ctx.fail(cls, f"call {o['id']}: {got[1]} instead of {want[1]}", **info)
        return
    d = diff(got[1], want[1], **wl.TOL)
    if d:
        ctx.fail(cls, f"call {o['id']} ({o['op']}) differs from the call made alone: {d[:4]}", **info)


def shrink(sc, rep):
    sw = (rep.get("info") or {}).get("switches")
    if sc["policy"]["kind"] != "replay" and sw is not None:
        c = copy.deepcopy(sc)
        first = sc["policy"].get("first", 0)
        c["policy"] = {"kind": "replay", "switches": sw, "first": first}
        yield c
    nt = len(sc["threads"])
    for t in range(nt):
        if nt > 2:
            c = copy.deepcopy(sc)
            del c["threads"][t]
            if c["policy"]["kind"] != "replay":
                yield c
    for t in range(nt):
        for j in range(len(sc["threads"][t])):
            if len(sc["threads"][t]) > 1:
                c = copy.deepcopy(sc)
                k = c["threads"][t][j]["id"]
                del c["threads"][t][j]
                if not any(o.get("src") == k for p in c["threads"] for o in p):
                    yield c
    if sc["policy"]["kind"] == "replay":
        sws = sc["policy"]["switches"]
        n = len(sws)
        step = max(1, n // 2)
        while step >= 1:
            for a in range(0, n, step):
                c = copy.deepcopy(sc)
                c["policy"]["switches"] = sws[:a] + sws[a + step :]
                yield c
                if n // step > 24 and a // step > 24:
                    break
            if step == 1:
                break
            step //= 2
    if not sc["threads"][0][0].get("abort_seed"):
        for t in range(nt):
            for j, o in enumerate(sc["threads"][t]):
                if o["op"] == "solve":
                    for v in wl.shrink_solve(o):
                        c = copy.deepcopy(sc)
                        c["threads"][t][j] = v
                        yield c
