"""
Determinism of the simulator itself.

check.py selftest [C01 C02 ...] [--runs N]: the first N scenarios of every property are executed
three times: with 8 workers in order; with 3 workers in reverse order in a process with another
hash seed; and alone, one after the other.  Status, event-log hash, faults fired, probes and
states must be the same each time.
"""

import json
import os
import subprocess
import sys

from . import target
from .core import rng_for
from .runner import VERIF, Pool, prop_module


def digest(pid, seed, n, workers, reverse):
    mod = prop_module(pid)
    if getattr(mod, "IMPORT", True):
        target.load()
    import pandas  # noqa: F401
    import scipy.io  # noqa: F401
    import scipy.signal  # noqa: F401

    prepare = getattr(mod, "prepare", None)
    if prepare:
        prepare("quick", seed)
    pool, out = Pool(mod, workers), {}
    todo = list(range(n))[:: -1 if reverse else 1]
    while todo or pool.live:
        while todo and not pool.full():
            k = todo.pop(0)
            sc = mod.generate(rng_for(seed, pid, k), "quick", k)
            sc["property"] = pid
            pool.start(k, json.loads(json.dumps(sc)), getattr(mod, "LIMIT", 60.0) * 2)
        for k, r in pool.wait():
            out[str(k)] = [
                r["status"],
                r["log"],
                sorted(r.get("faults", {}).items()),
                sorted(r.get("probes", {}).items()),
                r.get("states", []),
            ]
    return out


def other(pid, seed, n, workers, reverse, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    cmd = [sys.executable, "-B", os.path.join(VERIF, "check.py"), "selftest", "--digest", pid]
    cmd += [str(seed), str(n), str(workers), str(int(reverse))]
    p = subprocess.run(cmd, capture_output=True, text=True, env=env, check=False)
    if p.returncode:
        raise SystemExit(f"selftest {pid}: {p.stderr[-2000:]}")
    return json.loads(p.stdout.splitlines()[-1])


def main(argv, seed):
    if argv[:1] == ["--digest"]:
        pid, seed, n, workers, reverse = argv[1], *(int(x) for x in argv[2:6])
        print(json.dumps(digest(pid, seed, n, workers, reverse)))
        return 0
    n = int(argv[argv.index("--runs") + 1]) if "--runs" in argv else 24
    ids = [a.upper() for a in argv if a[:1] in "Cc" and a[1:].isdigit()]
    if not ids:
        ids = sorted(f[:3].upper() for f in os.listdir(os.path.join(VERIF, "dst", "props")) if f[:1] == "c")
    bad = 0
    for pid in ids:
        a = other(pid, seed, n, 8, False, 0)
        b = other(pid, seed, n, 3, True, 4711)
        c = other(pid, seed, min(n, 6), 1, False, 99)
        d = [k for k in a if a[k] != b[k] or (k in c and c[k] != a[k])]
        h = sum(v[0] == "harness" for v in a.values())
        print(f"selftest {pid}: {n} scenarios x 3 executions, {len(d)} differ {d[:8]}" + (f", {h} harness errors" if h else ""))
        for k in d[:2]:
            print("   ", a[k][:2], b[k][:2], [x for x in a[k][2:4] if x not in b[k][2:4]])
        bad += len(d) + h
    return 1 if bad else 0
