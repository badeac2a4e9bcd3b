"""
Batch runner.

The main process imports the code under test once and never calls it; every
simulated run is a forked child with a real-time limit.  Scenario i of a batch is a
pure function of (VERIF_SEED, property, i).  Violations are minimised, written as
replay files and replayed in a fresh interpreter before they are reported.
"""

import collections
import copy
import hashlib
import importlib
import json
import os
import pickle
import re
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import target
from .core import Ctx, HarnessError, Violation, rng_for

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REPLAYS = os.path.join(VERIF, "replays")


def prop_module(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


# ------------------------------------------------------------- one run
def run_scenario(mod, sc):
    """Execute one scenario in this process -> plain-data report."""
    ctx = Ctx(sc)
    rep = {"status": "ok"}
    try:
        mod.execute(sc, ctx)
    except Violation as e:
        rep = {"status": "violation", "cls": e.cls, "detail": e.detail, "info": e.info}
    except HarnessError as e:
        rep = {"status": "harness", "detail": str(e)}
    except (TypeError, ValueError, LookupError, ArithmeticError) as e:
        # the calls have answered, but with something that the oracle cannot even read (a field
        # missing, of another shape or type); on a sound tree this does not happen
        where = traceback.extract_tb(e.__traceback__)[-1]
        rep = {
            "status": "violation" if ctx.calls else "harness",
            "cls": "malformed",
            "detail": f"an answer cannot be examined: {type(e).__name__}: {e}"[:400] + f" ({os.path.basename(where.filename)}:{where.lineno})"
            if ctx.calls
            else f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}",
            "info": {},
        }
    except BaseException as e:
        rep = {
            "status": "harness",
            "detail": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}",
        }
    rep.update(
        log=ctx.log_hash(),
        events=ctx.events if rep["status"] == "violation" else [],
        faults=dict(ctx.faults),
        probes=dict(ctx.probes),
        calls=dict(ctx.calls),
        sim_days=ctx.sim_days,
        states=sorted(ctx.states),
        nontrivial=bool(ctx.nontrivial),
    )
    return rep


def _child(mod, sc, w):
    code = 0
    try:
        os.setpgid(0, 0)
        rep = run_scenario(mod, sc)
        b = pickle.dumps(rep, protocol=4)
        mv = memoryview(struct.pack("<Q", len(b)) + b)
        while mv:
            mv = mv[os.write(w, mv) :]
    except BaseException:
        code = 3
    finally:
        os._exit(code)


class Pool:
    def __init__(self, mod, workers):
        self.mod, self.workers = mod, workers
        self.live = {}  # fd -> [key, pid, buf, deadline]

    def start(self, key, sc, limit):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in self.live:
                try:
                    os.close(fd)
                except OSError:
                    pass
            _child(self.mod, sc, w)
        os.close(w)
        self.live[r] = [key, pid, bytearray(), time.monotonic() + limit]

    def full(self):
        return len(self.live) >= self.workers

    def wait(self):
        """-> list of (key, report) that have finished"""
        out = []
        while self.live and not out:
            now = time.monotonic()
            left = max(0.0, min(x[3] for x in self.live.values()) - now)
            rd, _, _ = select.select(list(self.live), [], [], min(left, 1.0) + 0.01)
            for fd in rd:
                st = self.live[fd]
                b = os.read(fd, 1 << 20)
                if b:
                    st[2] += b
                    continue
                out.append((st[0], self._finish(fd)))
            now = time.monotonic()
            for fd, st in list(self.live.items()):
                if now > st[3]:
                    self._kill(st[1])
                    os.close(fd)
                    os.waitpid(st[1], 0)
                    del self.live[fd]
                    out.append(
                        (st[0], {"status": "harness", "detail": "real-time limit", "log": ""}),
                    )
        return out

    def _finish(self, fd):
        key, pid, buf, _ = self.live.pop(fd)
        os.close(fd)
        _, st = os.waitpid(pid, 0)
        self._kill(pid)
        if len(buf) >= 8:
            (n,) = struct.unpack("<Q", bytes(buf[:8]))
            if len(buf) == 8 + n:
                return pickle.loads(bytes(buf[8:]))
        return {"status": "harness", "detail": f"run died (wait status {st})", "log": ""}

    @staticmethod
    def _kill(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass

    def drop_all(self):
        for fd, st in list(self.live.items()):
            self._kill(st[1])
            os.close(fd)
            try:
                os.waitpid(st[1], 0)
            except OSError:
                pass
        self.live.clear()


def run_one(mod, sc, limit):
    p = Pool(mod, 1)
    p.start(0, sc, limit)
    return p.wait()[0][1]


# ------------------------------------------------------------- known findings
def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\w+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------- minimisation
def minimise(mod, sc, rep, limit, tries=120, seconds=60.0):
    """Greedy: take any smaller scenario that fails with the same class."""
    shrink = getattr(mod, "shrink", None)
    used = 0
    t0 = time.monotonic()
    if shrink is None:
        return sc, rep, used
    workers = min(8, os.cpu_count() or 4)
    progress = True
    while progress and used < tries and time.monotonic() - t0 < seconds:
        progress = False
        cands = []
        try:
            for c in shrink(copy.deepcopy(sc), rep):
                cands.append(c)
                if len(cands) >= 64:
                    break
        except Exception:
            break
        pos = 0
        while pos < len(cands) and used < tries and time.monotonic() - t0 < seconds:
            chunk = cands[pos : pos + workers]
            pool = Pool(mod, workers)
            for j, c in enumerate(chunk):
                pool.start(j, c, limit)
            got = {}
            while pool.live:
                for k, r in pool.wait():
                    got[k] = r
            used += len(chunk)
            hit = next(
                (
                    j
                    for j in range(len(chunk))
                    if got[j]["status"] == "violation" and got[j]["cls"] == rep["cls"]
                ),
                None,
            )
            if hit is not None:
                sc, rep = chunk[hit], got[hit]
                progress = True
                break
            pos += len(chunk)
    return sc, rep, used


# ------------------------------------------------------------- one check
def check(pid, tier, seed):
    t0 = time.time()
    pid = pid.upper()
    mod = prop_module(pid)
    prepare = getattr(mod, "prepare", None)
    if getattr(mod, "IMPORT", True):
        # a tree that cannot even be imported is an error of the check, except where
        # the property is about importing
        target.load()
    import pandas  # noqa: F401
    import scipy.io  # noqa: F401
    import scipy.signal  # noqa: F401

    if prepare:
        prepare(tier, seed)
    n = int(os.environ.get("DST_RUNS") or mod.COUNTS[tier])
    limit = getattr(mod, "LIMIT", 60.0)
    workers = int(os.environ.get("DST_WORKERS") or min(8, os.cpu_count() or 4))
    budget = float(os.environ.get("DST_BUDGET") or (600 if tier == "quick" else 5400))
    pool = Pool(mod, workers)
    reports = {}
    scenarios = {}
    nxt = 0
    bad = None  # lowest index with an unlisted violation
    known = dict(load_known(pid))
    known_hit = {}
    stopped = False
    while nxt < n or pool.live:
        while nxt < n and not pool.full() and bad is None and not stopped:
            sc = mod.generate(rng_for(seed, pid, nxt), tier, nxt)
            sc["property"] = pid
            sc = json.loads(json.dumps(sc))
            scenarios[nxt] = sc
            pool.start(nxt, sc, limit)
            nxt += 1
        if not pool.live:
            break
        for k, rep in pool.wait():
            reports[k] = rep
            if rep["status"] == "violation":
                sig = (rep.get("info") or {}).get("signature")
                if sig in known:
                    known_hit[sig] = known[sig]
                elif bad is None or k < bad:
                    bad = k
        if time.time() - t0 > budget:
            stopped = True
    harness = [k for k, r in reports.items() if r["status"] == "harness"]
    wall_batch = time.time() - t0
    code = 0
    replay_path = None
    if bad is not None:
        replay_path = _report(pid, mod, scenarios[bad], reports[bad], seed, bad, limit)
        code = 1
    elif harness:
        k = min(harness)
        print(f"HARNESS-ERROR property={pid} run={k}: {reports[k]['detail'][:2500]}")
        code = 2
    elif stopped and nxt < n and nxt < n // 4:
        print(f"HARNESS-ERROR property={pid}: only {nxt} of {n} runs in {budget:.0f} s")
        code = 2
    for sig, what in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {what}")
    _evidence(
        pid,
        mod,
        tier,
        seed,
        reports,
        scenarios,
        wall_batch,
        time.time() - t0,
        workers,
        len(harness),
        1 if bad is not None else 0,
        sorted(known_hit),
    )
    if code == 0:
        print(
            f"OK property={pid} tier={tier} seed={seed} runs={len(reports)} "
            f"wall={time.time() - t0:.1f}s",
        )
    return code


def _report(pid, mod, sc, rep, seed, idx, limit):
    sc2, rep2, used = minimise(mod, sc, rep, limit)
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(json.dumps(sc2, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{pid}-{seed}-{idx}-{h}.json")

    def write(s, r, ok):
        with open(path, "w") as f:
            json.dump(
                {
                    "property": pid,
                    "verif_seed": seed,
                    "run": idx,
                    "violation": {"class": r["cls"], "detail": r["detail"], "info": r["info"]},
                    "log_hash": r["log"],
                    "log": r["events"],
                    "minimisation_runs": used,
                    "reproduced_in_fresh_process": ok,
                    "scenario": s,
                },
                f,
                indent=1,
                default=str,
            )

    ok = False
    for s, r in ((sc2, rep2), (sc, rep)):
        write(s, r, None)
        got = _replay_fresh(path)
        ok = got == r["cls"]
        write(s, r, ok)
        if ok:
            rep2 = r
            break
    print(f"violation class: {rep2['cls']}")
    print(f"detail: {str(rep2['detail'])[:1500]}")
    print(f"replayed in a fresh process: {'same violation' if ok else 'NOT reproduced'}")
    print(f"VIOLATION property={pid} replay={path}")
    return path


def _replay_fresh(path):
    try:
        p = subprocess.run(
            [sys.executable, "-B", os.path.join(VERIF, "check.py"), "replay", path, "--raw"],
            capture_output=True,
            text=True,
            timeout=180,
            check=False,
        )
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"^REPLAY-CLASS (.*)$", p.stdout, re.M)
    return m.group(1).strip() if m else None


def replay(path, raw=False):
    d = json.load(open(path))
    mod = prop_module(d["property"])
    if getattr(mod, "IMPORT", True):
        target.load()
    prepare = getattr(mod, "prepare", None)
    if prepare:
        prepare("quick", d.get("verif_seed", 1))
    rep = run_one(mod, d["scenario"], getattr(mod, "LIMIT", 60.0) * 2)
    if rep["status"] == "violation":
        print(f"REPLAY-CLASS {rep['cls']}")
        print(f"REPLAY-LOG {rep['log']} (recorded {d.get('log_hash')})")
        print(f"detail: {rep['detail']}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    if rep["status"] == "harness":
        print(f"HARNESS-ERROR {rep['detail']}")
        return 2
    print("replay: no violation")
    return 0


# ------------------------------------------------------------- evidence
def _evidence(
    pid,
    mod,
    tier,
    seed,
    reports,
    scenarios,
    wall_batch,
    wall,
    workers,
    nharness,
    nviol,
    known_hit,
):
    faults, probes, calls = (collections.Counter() for _ in range(3))
    days = 0.0
    states = set()
    logs = set()
    nontrivial = set()
    samples = []
    for k in sorted(reports):
        r = reports[k]
        if r["status"] == "harness":
            continue
        faults.update(r["faults"])
        probes.update(r["probes"])
        calls.update(r["calls"])
        days += r["sim_days"]
        states.update(r["states"])
        logs.add(r["log"])
        if r["nontrivial"]:
            nontrivial.add(r["log"])
            if len(samples) < 2:
                samples.append(
                    {"run": k, "scenario": _clip(scenarios[k]), "log_hash": r["log"]},
                )
    if not samples and scenarios:
        k = min(scenarios)
        samples.append({"run": k, "scenario": _clip(scenarios[k])})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(reports),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs_per_hour": round(len(reports) / max(wall_batch, 1e-6) * 3600),
            "seeds_per_hour": round(len(reports) / max(wall_batch, 1e-6) * 3600),
            "workers": workers,
            "simulated_time_days": round(days, 1),
            "faults_injected": dict(sorted(faults.items())),
            "real_code_calls": dict(sorted(calls.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_event_logs": len(logs),
            "distinct_states": len(states),
            "distinct_states_measure": mod.STATES,
            "real_code": mod.REAL,
            "stubs": mod.STUB,
            "harness_errors": nharness,
            "known_findings_seen": known_hit,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    tmp = f"{path}.{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, path)


def _clip(sc):
    s = json.dumps(sc)
    return sc if len(s) < 6000 else s[:6000] + "..."
