"""
C15  Results do not depend on the environment of the process.

The same program of calls is run in a new interpreter under a drawn environment - wall
clock set to another year, jumping forwards and backwards with every reading, time zone,
locale, hash seed, optimisation level, development mode, working directory that is
read-only or deleted, no home, closed standard streams, other random seeds, print
options, thread, garbage collector, absent optional packages - and must give what it
gives in the plain environment, and leave no file behind.
"""

import copy
import os
import shutil
import subprocess
import tempfile

import numpy as np

from .. import fresh
from .. import workload as wl
from ..compare import diff
from ..isolate import Pristine

ID = "C15"
COUNTS = {"quick": 100, "thorough": 3000}
LIMIT = 200.0
RULE = (
    "3-5 calls (solve with all option sets, reconstruct, calls that must fail) in a fresh "
    "interpreter whose environment differs in 3-9 respects from the plain one; non-trivial: the "
    "environment differed in at least 3 respects and a call succeeded"
)
STATES = "distinct environments"
REAL = ["utide (all modules, unmodified)", "numpy, scipy, pandas", "a new interpreter per run"]
STUB = ["wall clock (preloaded shim; used when a C compiler is there)"]
ASSUMPTIONS = ["results are compared with a relative tolerance of 1e-9"]
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long off, jump, n; static int init;
static long shift(void){ if(!init){ const char*a=getenv("DST_CLOCK_OFF"),*b=getenv("DST_CLOCK_JUMP");
  off=a?atol(a):0; jump=b?atol(b):0; init=1; } n++; return off + (n%2? 1:-1)*jump*n; }
int clock_gettime(clockid_t c, struct timespec*t){ static int(*f)(clockid_t,struct timespec*);
  if(!f) f=dlsym(RTLD_NEXT,"clock_gettime"); int r=f(c,t); if(!r&&c==CLOCK_REALTIME) t->tv_sec+=shift(); return r; }
int gettimeofday(struct timeval*t, void*z){ static int(*f)(struct timeval*,void*);
  if(!f) f=dlsym(RTLD_NEXT,"gettimeofday"); int r=f(t,z); if(!r) t->tv_sec+=shift(); return r; }
time_t time(time_t*p){ static int(*f)(clockid_t,struct timespec*); struct timespec s;
  if(!f) f=dlsym(RTLD_NEXT,"clock_gettime"); f(CLOCK_REALTIME,&s); s.tv_sec+=shift(); if(p)*p=s.tv_sec; return s.tv_sec; }
"""
_shim = None


def prepare(tier, seed):
    global _shim
    d = os.environ.get("DST_TMP") or tempfile.mkdtemp()
    src, so = os.path.join(d, "shim.c"), os.path.join(d, "shim.so")
    with open(src, "w") as f:
        f.write(SHIM)
    for cc in ("gcc", "clang", "cc"):
        try:
            subprocess.run(
                [cc, "-shared", "-fPIC", "-O1", "-o", so, src, "-ldl"],
                check=True,
                capture_output=True,
                timeout=60,
            )
        except (OSError, subprocess.SubprocessError):
            continue
        _shim = so
        return


ASPECTS = ["clock", "jump", "tz", "locale", "hash", "opt", "dev", "cwd", "home", "streams", "seed", "print", "thread",
           "gc", "nopandas", "warn", "utf8", "recursion", "decimal", "npseterr", "noenv", "blas"]
EPOCHS = ["epdt:2000-02-29", "epdt:1992-03-01", "epd:1987-12-31", "epdt:2021-07-01", "ep:2001-01-01", "pydt"]


def generate(rng, tier, i):
    ops = []
    base = wl.gen_solve(rng)
    for k in range(rng.choice([2, 3, 3])):
        if k == 0:
            op = copy.deepcopy(base)
        elif rng.random() < 0.3:
            op = wl.gen_solve(rng, mc=rng.random() < 0.6)
        else:
            op = wl.sibling(rng, base)
        op["id"] = len(ops)
        ops.append(op)
        if rng.random() < 0.6:
            r = wl.gen_recon(rng, op, op["id"])
            r["id"] = len(ops)
            if rng.random() < 0.3:
                r["bad"] = rng.choice(["ndim", "ndim", "epoch", "key"])
            ops.append(r)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        b = copy.deepcopy(base)
        b.update(op="bad", how=rng.choice(wl.BAD), id=len(ops))
        ops.append(b)
    for o in ops:
        # pandas containers only where pandas is there
        if o["op"] != "recon" and o.get("rep"):
            o["rep"]["t"] = {"pdidx": "dt64ns", "pdser": "dt64"}.get(o["rep"]["t"], o["rep"]["t"])
            o["rep"]["u"] = {"ser": "list"}.get(o["rep"]["u"], o["rep"]["u"])
        # every way to state times, dates with an hour among them
        if o.get("rep") and o["rep"]["t"] in ("py", "ml", "ep:1992-03-01") and rng.random() < 0.6:
            o["rep"]["t"] = rng.choice(EPOCHS)
        if o["op"] == "recon" and rng.random() < 0.6:
            o["t"]["rep"] = rng.choice([*EPOCHS, "pydt", "pydta"])
    asp = set(rng.sample(ASPECTS, rng.randint(3, 9)))
    if rng.random() < 0.5:
        asp.add("tz")
    asp = sorted(asp)
    return {
        "ops": ops,
        "aspects": asp,
        "v": {
            "clock": rng.choice([-1500000000, 400000000, 2000000000, 86400 * 37]),
            "jump": rng.choice([1, 3600, 10000000]),
            "tz": rng.choice(["XST+11:30", "Pacific/Kiritimati", "EST5EDT,M3.2.0,M11.1.0", "UTC-14", ":nonsense"]),
            "locale": rng.choice(["C", "POSIX", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8", "xx_XX"]),
            "hash": rng.randrange(1, 4000000000),
            "opt": rng.choice(["-O", "-OO"]),
            "cwd": rng.choice(["ro", "deleted", "root", "shadow"]),
            "streams": rng.choice(["none", "closed", "file"]),
            "seed": rng.randrange(1 << 31),
            "print": rng.randint(1, 12),
        },
        "pyseed": rng.randrange(1 << 30),
    }


def program(p):
    """In the new interpreter."""
    import gc
    import sys
    import threading

    asp, v = p["aspects"], p["v"]
    if "nopandas" in asp:
        sys.modules["pandas"] = None
    if "warn" in asp:
        import warnings

        warnings.simplefilter("always")
    from .. import target

    if "seed" in asp:
        import random

        random.seed(v["seed"])
        np.random.seed(v["seed"])
    if "print" in asp:
        np.set_printoptions(precision=v["print"], threshold=1, linewidth=20, suppress=True)
    if "decimal" in asp:
        import decimal

        decimal.getcontext().prec = 2
    if "npseterr" in asp:
        np.seterr(all="ignore")
    if "gc" in asp:
        gc.set_threshold(40, 2, 2) if v["print"] % 2 else gc.disable()
    if "locale" in asp:
        import locale

        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass
    utide = target.load()
    if "recursion" in asp:
        sys.setrecursionlimit(200 + 20)
    if "streams" in asp:
        if v["streams"] == "none":
            sys.stdout = sys.stderr = sys.stdin = None
        elif v["streams"] == "closed":
            sys.stdout.close()
    if "warn" not in asp:
        wl.quiet()
    out = []

    def work():
        from ..compare import snap

        objs = {}
        for op in p["ops"]:
            if op["op"] == "recon" and op["src"] not in objs:
                out.append(("skipped", None))
                continue
            r = wl.outcome(op, utide, objs)
            if r[0] == "ok":
                objs[op["id"]] = r[1]
                r = ("ok", snap(r[1]))
            out.append(r)

    if "thread" in asp:
        threading.stack_size(1 << 20)
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    fds = len(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else 0
    import time

    return {"out": out, "fds": fds, "now": time.time()}


def plain(p):
    return program({"ops": p["ops"], "aspects": [], "v": {}})


def tree(*dirs):
    out = []
    for r in dirs:
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x != "__pycache__" or r != fresh.VERIF]
            out += [os.path.join(d, f) for f in fs + ds]
    return sorted(out)


def execute(sc, ctx):
    from .. import target

    pristine = Pristine()
    tmp = tempfile.mkdtemp(prefix="c15-", dir=os.environ.get("DST_TMP"))
    try:
        target.load()
        want = pristine.run(plain, {"ops": sc["ops"]})["out"]
        asp, v = sc["aspects"], sc["v"]
        env, flags, drop = {"TMPDIR": os.path.join(tmp, "tmp")}, [], ["DST_CLOCK_OFF", "DST_CLOCK_JUMP"]
        os.mkdir(env["TMPDIR"])
        os.mkdir(os.path.join(tmp, "cwd"))
        cwd = os.path.join(tmp, "cwd")
        if "clock" in asp or "jump" in asp:
            if _shim:
                env["LD_PRELOAD"] = _shim
                env["DST_CLOCK_OFF"] = str(v["clock"] if "clock" in asp else 0)
                env["DST_CLOCK_JUMP"] = str(v["jump"] if "jump" in asp else 0)
            else:
                ctx.probes["no clock shim (no compiler)"] += 1
        if "tz" in asp:
            env["TZ"] = v["tz"]
        if "locale" in asp:
            env["LC_ALL"] = env["LANG"] = v["locale"]
        env["PYTHONHASHSEED"] = str(v["hash"]) if "hash" in asp else "0"
        if "opt" in asp:
            flags.append(v["opt"])
        if "dev" in asp:
            flags += ["-X", "dev"]
        if "utf8" in asp:
            env["PYTHONUTF8"] = "0"
        if "home" in asp:
            drop += ["HOME", "USER", "LOGNAME"]
        if "noenv" in asp:
            drop += [k for k in os.environ if k not in ("DST_ENV", "DST_TMP", "OPENBLAS_NUM_THREADS", "UTIDE_REPO")]
        if "blas" in asp:
            env["OPENBLAS_NUM_THREADS"] = env["OMP_NUM_THREADS"] = "3"
        if "cwd" in asp:
            if v["cwd"] == "ro":
                os.chmod(cwd, 0o555)
            elif v["cwd"] == "root":
                cwd = "/"
            elif v["cwd"] == "shadow":
                # files with tempting names in the working directory
                for n in ("ut_constants.npz", "utide.ini", "utide.py", "harmonics.py", "astronomy.py", ".utiderc"):
                    with open(os.path.join(cwd, n), "w") as f:
                        f.write("raise SystemExit('picked up from the working directory')\n")
        before = tree(os.path.join(tmp, "cwd"), env["TMPDIR"], target.PKG)
        payload = {"ops": sc["ops"], "aspects": asp, "v": v}
        if "cwd" in asp and v["cwd"] == "deleted":
            cwd = os.path.join(tmp, "gone")
            os.mkdir(cwd)
            payload["ops"] = sc["ops"]
            got = fresh.run(in_deleted, (cwd, payload), env, flags, cwd, drop_env=drop)
        else:
            got = fresh.run(program, payload, env, flags, cwd, drop_env=drop)
        for a in asp:
            if a in ("clock", "jump") and not _shim:
                continue
            ctx.faults[f"environment: {a}"] += 1
        after = tree(os.path.join(tmp, "cwd"), env["TMPDIR"], target.PKG)
    finally:
        pristine.close()
        shutil.rmtree(tmp, True)
    ctx.calls["solve/reconstruct"] += len(want)
    ctx.log(asp, [w[0] for w in want])
    ctx.state(asp, [v.get(a) for a in asp])
    ctx.nontrivial = len(asp) >= 3 and any(w[0] == "ok" for w in want)
    import time

    if ("clock" in asp or "jump" in asp) and _shim and abs(got["now"] - time.time()) > 1000:
        ctx.probes["wall clock of the program was off by more than 1000 s"] += 1
    left = sorted(set(before) ^ set(after))
    if left:
        ctx.fail("files", f"files appeared or vanished: {left[:5]}")
    if len(got["out"]) != len(want):
        ctx.fail("environment", f"the program stopped after {len(got['out'])} of {len(want)} calls under {asp}")
    for op, w, h in zip(sc["ops"], want, got["out"], strict=True):
        if w[0] != h[0] or (w[0] == "err" and w[1] != h[1]):
            ctx.fail(
                "environment",
                f"{op['op']} call {op['id']} under {describe(asp, v)}: {h[0]} {h[1] if h[0] == 'err' else ''} "
                f"instead of {w[0]} {w[1] if w[0] == 'err' else ''}",
            )
        if w[0] == "ok":
            d = diff(w[1], h[1], rtol=1e-9, atol=1e-9)
            if d:
                ctx.fail("environment", f"{op['op']} call {op['id']} under {describe(asp, v)}: {d[:3]}")


def in_deleted(p):
    cwd, payload = p
    os.rmdir(cwd)
    return program(payload)


def describe(asp, v):
    return ", ".join(f"{a}={v[a]}" if a in v else a for a in asp)


def shrink(sc, rep):
    for a in sc["aspects"]:
        if len(sc["aspects"]) > 1:
            yield {**copy.deepcopy(sc), "aspects": [x for x in sc["aspects"] if x != a]}
    for ops in wl.shrink_ops(sc["ops"]):
        yield {**copy.deepcopy(sc), "ops": ops}
