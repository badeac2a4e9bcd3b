"""
Fresh interpreters: a new process that has imported nothing of the code under test.

run(fn, payload, env=..., flags=...) executes module-level fn(payload) there.  The
byte-code of the code under test is never taken from a cache.
"""

import os
import pickle
import subprocess
import sys
import tempfile

from .core import HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOOT = """
import os, sys
r, w = int(sys.argv[1]), int(sys.argv[2])
sys.path.insert(0, sys.argv[3])
import numpy, scipy.io, scipy.signal
from dst import fresh
fresh._serve(r, w)
"""


def _serve(r, w):
    import traceback

    with os.fdopen(r, "rb") as f:
        fn, payload = pickle.loads(f.read())
    try:
        res = ("ok", fn(payload))
    except BaseException as e:
        res = ("harness", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
    with os.fdopen(w, "wb") as f:
        f.write(pickle.dumps(res, protocol=4))


def run(fn, payload, env=None, flags=(), cwd=None, limit=90.0, drop_env=()):
    e = dict(os.environ)
    e.pop("PYTHONPYCACHEPREFIX", None)
    e.setdefault("OPENBLAS_NUM_THREADS", "1")
    e.setdefault("OMP_NUM_THREADS", "1")
    for k in drop_env:
        e.pop(k, None)
    e.update(env or {})
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    err = tempfile.TemporaryFile()
    try:
        p = subprocess.Popen(
            [sys.executable, "-B", *flags, "-c", BOOT, str(r1), str(w2), VERIF],
            pass_fds=(r1, w2),
            env=e,
            cwd=cwd,
            stdin=subprocess.DEVNULL,
            stdout=err,
            stderr=err,
        )
        os.close(r1)
        os.close(w2)
        r1 = w2 = -1
        try:
            with os.fdopen(w1, "wb") as f:
                w1 = -1
                f.write(pickle.dumps((fn, payload), protocol=4))
        except BrokenPipeError:
            pass
        with os.fdopen(r2, "rb") as f:
            r2 = -1
            b = f.read()
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise HarnessError("fresh interpreter exceeded its real-time limit") from None
    finally:
        for fd in (r1, w1, r2, w2):
            if fd >= 0:
                os.close(fd)
    if not b:
        err.seek(0)
        raise HarnessError(f"fresh interpreter died ({p.returncode}): {err.read()[-1500:]!r}")
    kind, val = pickle.loads(b)
    if kind != "ok":
        raise HarnessError(f"fresh interpreter: {val}")
    return val
