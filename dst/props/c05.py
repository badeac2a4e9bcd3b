"""
C05  verbose=False is silent, and output never decides results.

Calls run with the process's output streams in every state (working, closed, broken
pipe, full disk, missing, interrupted) and are watched at both the sys.stdout/stderr and
the file-descriptor level.  verbose=False: not one byte, no stream operation, no effect
of a broken stream, also when the call fails or is cancelled.  verbose=True: the same
result as verbose=False, or the stream's own error.
"""

import copy
import os
import tempfile

from .. import inject
from .. import workload as wl
from ..compare import diff, snap
from ..isolate import Pristine
from ..sched import LineProbe
from .c01 import pick
from .c04 import alone

ID = "C05"
COUNTS = {"quick": 500, "thorough": 9000}
LIMIT = 90.0
RULE = (
    "1-3 solve/reconstruct calls per run over all option classes, gaps, invalid "
    "arguments and cancellations, with a drawn stream state; non-trivial: a call ran to "
    "an outcome with a stream fault configured or with verbose output produced"
)
STATES = "distinct (op, verbose, stream state, outcome, option set) combinations"
REAL = ["utide (all modules, unmodified)", "numpy", "scipy"]
STUB = ["sys.stdout", "sys.stderr", "file descriptors 1 and 2"]
ASSUMPTIONS = ["Python warnings are not messages of the call and are filtered out"]

MODES = ["ok", "epipe", "enospc", "closed", "eintr", "unicode", "none"]


def generate(rng, tier, i):
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        mc = rng.random() < 0.15
        s = wl.gen_solve(rng, mc=mc, auto=True)
        if mc:
            s["opts"].pop("infer", None)
        if rng.random() < 0.15:
            s["op"], s["how"] = "bad", rng.choice(wl.BAD)
        elif rng.random() < 0.25:
            wl.wildify(rng, s)
        s["id"] = len(ops)
        ops.append(s)
        if s["op"] == "solve":
            for _ in range(rng.choice([0, 1, 1])):
                o = wl.gen_recon(rng, s, s["id"])
                if rng.random() < 0.2:
                    o["t"]["rep"] = "py"
                    o["t"]["nans"] = list(range(o["t"]["n"]))[:3]
                o["wild"] = s.get("wild", False)
                o["id"] = len(ops)
                ops.append(o)
    for o in ops:
        o["verbose"] = rng.random() < (0.1 if o.get("wild") else 0.35)
        o["mode"] = rng.choice(MODES)
        o["err"] = rng.choice(["ok", "epipe", "closed", "none"])
        o["k"] = rng.choice([1, 1, 2, 3, 4])
        if rng.random() < 0.15:
            o["cancel"] = rng.randrange(1 << 30)
    return {"ops": ops}


def lines(payload):
    from .. import target

    utide = target.load()
    wl.quiet()
    objs = {}
    lp = LineProbe(collect=True)
    with inject.Streams(inject.FaultyStream()):
        for o in payload["ops"][:-1]:
            objs[o["id"]] = wl.materialise(o, utide, objs)()
        c = wl.materialise(payload["ops"][-1], utide, objs)
        try:
            with lp:
                c()
        except Exception:
            pass
    return lp.locs


class FdWatch:
    """what reaches file descriptors 1 and 2 while a call runs"""

    def __enter__(self):
        self.f = tempfile.TemporaryFile(dir=os.environ.get("DST_TMP"))
        self.saved = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        os.close(self.saved[0])
        os.close(self.saved[1])
        self.f.seek(0)
        self.bytes = self.f.read()
        self.f.close()
        return False


def execute(sc, ctx):
    from .. import target

    utide = target.load()
    pristine = Pristine()
    try:
        _execute(sc, ctx, pristine, utide)
    finally:
        pristine.close()


def no_echo(s):
    """drop the record of the verbosity option itself"""
    if isinstance(s, dict):
        if isinstance(s.get("items"), dict):
            return {
                **s,
                "items": {
                    k: no_echo(v)
                    for k, v in s["items"].items()
                    if k not in ("RunTimeDisp", "runtimedisp", "verbose")
                },
            }
    return s


def _execute(sc, ctx, pristine, utide):
    wl.quiet()
    objs = {}
    by = {o["id"]: o for o in sc["ops"]}
    for op in sc["ops"]:
        if op["op"] == "recon" and op["src"] not in objs:
            continue
        chain = [by[op["src"]], op] if op["op"] == "recon" else [op]
        want = pristine.run(alone, {"ops": chain})
        k = None
        if "cancel" in op:
            locs = pristine.run(lines, {"ops": chain})
            if locs:
                k, _ = pick(locs, op["cancel"])
        live = copy.deepcopy(op)
        (live["opts"] if "opts" in live else live["kw"])["verbose"] = op["verbose"]
        c = wl.materialise(live, utide, objs)
        out = None if op["mode"] == "none" else inject.FaultyStream(op["mode"], op["k"])
        err = None if op["err"] == "none" else inject.FaultyStream(op["err"])
        lp = LineProbe(k, KeyboardInterrupt("cancelled")) if k is not None else None
        got = None
        with FdWatch() as w:
            try:
                with inject.Streams(out, err):
                    if lp:
                        with lp:
                            got = ("ok", c())
                    else:
                        got = ("ok", c())
            except KeyboardInterrupt:
                got = ("cancelled", "")
            except Exception as e:
                got = ("err", type(e).__name__)
        text = out.getvalue() if out else ""
        etext = err.getvalue() if err else ""
        touched = (out.ops if out else 0) + (err.ops if err else 0)
        ctx.calls[op["op"]] += 1
        ctx.log(op["id"], op["op"], op["verbose"], op["mode"], got[0], len(text))
        ctx.state(op["op"], op["verbose"], op["mode"], got[0], sorted(op.get("opts", {})))
        if op["mode"] != "ok":
            ctx.faults[f"stdout {op['mode']}" + ("" if op["verbose"] else " (silent call)")] += 1
        if got[0] == "cancelled":
            ctx.faults["cancelled call"] += 1
        ctx.nontrivial = ctx.nontrivial or op["mode"] != "ok" or bool(text)
        if not op["verbose"]:
            if text or etext or w.bytes or touched:
                ctx.fail(
                    "not-silent",
                    f"{op['op']} with verbose=False ({got[0]}) wrote "
                    f"{(text or etext or w.bytes.decode(errors='replace'))[:200]!r}",
                )
            if got[0] != "cancelled":
                _cmp(ctx, "stream-decides-result", op, got, want)
            if op["op"] == "solve" and got[0] == "cancelled":
                got = wl.outcome(op, utide, objs)
            if op["op"] == "solve" and got[0] == "ok":
                objs[op["id"]] = got[1]
            continue
        if got[0] == "cancelled":
            if op["op"] == "solve":
                got = wl.outcome(op, utide, objs)
                objs.update({op["id"]: got[1]} if got[0] == "ok" else {})
            continue
        faulty = out is not None and out.fired
        if got[0] == "ok":
            if out is not None and not faulty and not text and want[0] == "ok":
                ctx.probes["verbose call wrote nothing"] += 1
            _cmp(ctx, "verbosity-decides-result", op, got, want)
        elif not faulty:
            _cmp(ctx, "verbosity-decides-result", op, got, want)
        ctx.probes["verbose output produced"] += bool(text)
        # keep a usable source for later reconstructs
        if op["op"] == "solve":
            if got[0] != "ok":
                got = wl.outcome(op, utide, objs)
            if got[0] == "ok":
                objs[op["id"]] = got[1]


def _cmp(ctx, cls, op, got, want):
    if op.get("wild"):
        ctx.faults["nonsensical record"] += 1
        return
    if got[0] != want[0] or (got[0] == "err" and got[1] != want[1]):
        ctx.fail(
            cls,
            f"{op['op']} verbose={op['verbose']} stdout={op['mode']}: {got[0]} "
            f"{got[1] if got[0] == 'err' else ''} instead of {want[0]}",
        )
    if got[0] == "ok":
        d = diff(no_echo(deep_echo(snap(got[1]))), no_echo(deep_echo(want[1])), **wl.TOL)
        if d:
            ctx.fail(cls, f"{op['op']} verbose={op['verbose']} stdout={op['mode']}: {d[:4]}")


def deep_echo(s):
    if isinstance(s, dict):
        if isinstance(s.get("items"), dict):
            return {**s, "items": {k: no_echo(deep_echo(v)) for k, v in s["items"].items()}}
    return s


def shrink(sc, rep):
    for i in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            c = copy.deepcopy(sc)
            k = c["ops"][i]["id"]
            c["ops"] = [o for o in c["ops"] if o["id"] != k and o.get("src") != k]
            if c["ops"]:
                yield c
    for i, o in enumerate(sc["ops"]):
        for key, simple in (("mode", "ok"), ("err", "ok"), ("verbose", False)):
            if o[key] != simple:
                c = copy.deepcopy(sc)
                c["ops"][i][key] = simple
                yield c
        if "cancel" in o:
            c = copy.deepcopy(sc)
            c["ops"][i].pop("cancel")
            yield c
        if o["op"] == "solve":
            for v in wl.shrink_solve(o):
                c = copy.deepcopy(sc)
                c["ops"][i] = v
                yield c
