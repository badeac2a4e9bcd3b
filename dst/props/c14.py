"""
C14  The constants are loaded completely and correctly or not at all.

A scratch copy of the package is imported by new processes while its data file meets the
faults real disks and file systems have: bit flips, zeroed or repeated sectors, torn
writes, truncation, appended garbage, a missing, empty or unreadable file, read errors,
interrupted and short reads, memory exhaustion - permanent or only once.  Either the
import (or the first use of the tables) raises, or the tables are exactly those of the
intact file.  When the fault is gone the import works in the same process.
"""

import copy
import errno
import io
import os
import pickle
import resource
import shutil
import sys
import tempfile

import numpy as np

from .. import target
from ..compare import diff, snap
from ..core import HarnessError

ID = "C14"
IMPORT = False
COUNTS = {"quick": 200, "thorough": 4000}
LIMIT = 150.0
RULE = (
    "8 imports per run, each in a new process, of a scratch copy of the package whose data "
    "files meet one drawn fault (on the medium or in the read calls); non-trivial: the fault was "
    "met by the import (the file was read and the fault fired)"
)
STATES = "distinct (fault kind, place, outcome)"
REAL = ["utide (import and first use, unmodified copy)", "numpy.load, zipfile, pickle"]
STUB = ["medium (scratch copy with injected faults)", "open() of the data directory (fault seam)"]
ASSUMPTIONS = [
    "corruption that keeps every checksum of the archive valid cannot be noticed and is not injected",
    "a read that returns wrong bytes once is injected on the medium, not in the read call",
]
MEDIUM = ["flip", "flip", "flip", "zero", "repeat", "torn", "truncate", "truncate", "append", "empty", "missing", "dir", "swap"]
CALLS = ["eio", "eintr", "short", "eof", "nomem", "emfile", "eacces", "enoent"]


def generate(rng, tier, i):
    tr = []
    for _ in range(8):
        if rng.random() < 0.62:
            tr.append({"on": "medium", "kind": rng.choice(MEDIUM), "at": rng.random(), "bit": rng.randrange(8),
                       "len": rng.choice([1, 4, 16, 512, 4096]), "file": rng.choice(["npz"] * 9 + ["all"])})
        else:
            tr.append({"on": "call", "kind": rng.choice(CALLS), "k": rng.choice([1, 1, 2, 3, 5, 8, 13, 20, 30]),
                       "sticky": rng.random() < 0.6, "file": "all"})
    return {"trials": tr}


def setup_copy():
    root = tempfile.mkdtemp(prefix="c14-", dir=os.environ.get("DST_TMP"))
    shutil.copytree(
        target.PKG,
        os.path.join(root, "utide"),
        ignore=shutil.ignore_patterns("__pycache__", "FUV0*", "make_FUV*"),
    )
    # byte code is made here, from the sources just copied, and nowhere else
    import compileall

    prefix, sys.pycache_prefix = sys.pycache_prefix, None
    try:
        compileall.compile_dir(os.path.join(root, "utide"), quiet=2)
    finally:
        sys.pycache_prefix = prefix
    return root


def damage(path, t):
    """apply a fault to the bytes on the medium -> False if it changed nothing"""
    b = open(path, "rb").read()
    n = len(b)
    at = int(t["at"] * n)
    k = t["kind"]
    new = bytearray(b)
    if k == "flip":
        new[at] ^= 1 << t["bit"]
    elif k == "zero":
        new[at : at + t["len"]] = bytes(len(new[at : at + t["len"]]))
    elif k == "repeat":
        blk = new[max(0, at - t["len"]) : at]
        new[at : at + len(blk)] = blk
        new = new[:n]
    elif k == "torn":
        new[at:] = bytes(n - at)
    elif k == "truncate":
        new = new[:at]
    elif k == "append":
        new += bytes(t["len"])
    elif k == "empty":
        new = bytearray()
    elif k == "swap":  # two sectors exchanged
        s = t["len"]
        a, c = new[at : at + s], new[at + s : at + 2 * s]
        if len(a) == len(c):
            new[at : at + s], new[at + s : at + 2 * s] = c, a
    elif k == "missing":
        os.unlink(path)
        return True
    elif k == "dir":
        os.unlink(path)
        os.mkdir(path)
        return True
    if bytes(new) == b:
        return False
    with open(path, "wb") as f:
        f.write(new)
    return True


def restore(path, good):
    if os.path.isdir(path):
        os.rmdir(path)
    with open(path, "wb") as f:
        f.write(good)


class FaultyRaw(io.RawIOBase):
    """raw file whose k-th read call meets the fault"""

    def __init__(self, path, seam):
        self._f = io.FileIO(path, "rb")
        self.seam = seam
        self.name = path

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        self._f.close()
        super().close()

    def readinto(self, b):
        s = self.seam
        s.reads += 1
        hit = s.reads == s.k or (s.sticky and s.reads >= s.k)
        if hit:
            if s.kind == "eio":
                s.fired += 1
                raise OSError(errno.EIO, "Input/output error")
            if s.kind == "eintr" and s.reads == s.k:
                s.fired += 1
                raise InterruptedError(errno.EINTR, "Interrupted system call")
            if s.kind == "nomem":
                s.fired += 1
                raise MemoryError("read buffer")
            if s.kind == "eof":
                s.fired += 1
                return 0
            if s.kind == "short":
                s.fired += 1
                m = memoryview(b).cast("B")
                return self._f.readinto(m[: max(1, len(m) // 7)])
        return self._f.readinto(b)


class Seam:
    """open() of files below `root`, as the code under test and numpy call it"""

    def __init__(self, root, t):
        import builtins

        self.kind, self.k, self.sticky = t["kind"], t["k"], t["sticky"]
        self.root = os.path.realpath(root) + os.sep
        self.reads = self.opens = self.fired = 0
        self.on = True
        self.real = builtins.open
        builtins.open = self.open
        io.open = self.open

    def open(self, file, mode="r", *a, **kw):
        if self.on and isinstance(file, (str, bytes, os.PathLike)) and "r" in mode:
            p = os.path.realpath(os.fsdecode(file))
            if p.startswith(self.root) and not p.endswith(".py"):
                self.opens += 1
                if self.kind in ("emfile", "eacces", "enoent") and (
                    self.opens == 1 or self.sticky
                ):
                    self.fired += 1
                    e = getattr(errno, self.kind.upper())
                    raise OSError(e, os.strerror(e), p)
                if self.kind in ("eio", "eintr", "short", "eof", "nomem"):
                    f = io.BufferedReader(FaultyRaw(p, self), 512)
                    if "b" in mode:
                        return f
                    return io.TextIOWrapper(f)
        return self.real(file, mode, *a, **kw)


def tables(utide):
    from utide import _ut_constants as m

    out = {
        "ut_constants": snap(utide.ut_constants),
        "index": snap(utide.constit_index_dict),
        "cph": snap(utide.cycles_per_hour),
        "hpc": snap(utide.hours_per_cycle),
    }
    if hasattr(m, "constit_names"):
        out["names"] = snap(m.constit_names)
    return out


def use(utide):
    t = 735000 + np.arange(0, 16, 1 / 24)
    c = utide.solve(
        t, np.cos(t * 12.14), lat=40.0, constit=["M2", "S2", "K1", "MS4"], conf_int="none",
        epoch="python", verbose=False,
    )
    return snap([c["A"], c["g"], c["name"]])


def attempt(call=True):
    import importlib

    for k in [k for k in sys.modules if k == "utide" or k.startswith("utide.")]:
        # nothing of the package is left by a failed import except finished submodules;
        # a user retries with a plain import
        if k == "utide":
            del sys.modules[k]
    try:
        utide = importlib.import_module("utide")
        return ("ok", tables(utide), use(utide) if call else None)
    except Exception as e:
        return ("raised", f"{type(e).__name__}: {str(e)[:200]}")
    except BaseException as e:
        return ("raised", f"{type(e).__name__}")


def listing(root):
    out = []
    for d, _, fs in os.walk(root):
        if not d.endswith("__pycache__"):
            out += [os.path.relpath(os.path.join(d, f), root) for f in fs]
    return sorted(out)


def trial(p):
    """In a new process: import under the fault, then again when it is gone."""
    root, t, good = p["root"], p["trial"], p["good"]
    sys.path.insert(0, root)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = None
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import warnings

    warnings.simplefilter("ignore")
    if p.get("strict"):
        # warnings as errors and floating-point traps are not faults: nothing to trap here
        warnings.filterwarnings("error", category=RuntimeWarning)
        np.seterr(all="raise", under="ignore")
        return {"first": attempt(False)}
    seam = None
    res = {"fired": False}
    if t is not None and t["on"] == "medium":
        for path in good:
            if t["file"] == "all" or path.endswith(".npz"):
                res["fired"] |= damage(path, t)
    elif t is not None:
        seam = Seam(root, t)
    before = listing(root)
    res["first"] = attempt()
    res["left"] = sorted(set(listing(root)) ^ set(before))
    if seam is not None:
        res["fired"] = seam.fired > 0
        seam.on = False
    for path, b in good.items():
        restore(path, b)
    res["second"] = attempt() if res["first"][0] == "raised" else None
    return res


def in_fork(fn, payload):
    """-> result, or None when the process died"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            b = pickle.dumps(fn(payload), protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(b)
            code = 0
        except BaseException:
            import traceback

            try:
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps({"harness": traceback.format_exc()}))
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        return None
    res = pickle.loads(b)
    if "harness" in res:
        raise HarnessError(res["harness"])
    return res


def execute(sc, ctx):
    if "utide" in sys.modules:
        raise HarnessError("package imported before the run")
    import scipy.io  # noqa: F401
    import scipy.signal  # noqa: F401

    root = setup_copy()
    cwd = os.getcwd()
    try:
        os.chdir(root)
        data = os.path.join(root, "utide", "data")
        good = {}
        for f in sorted(os.listdir(data)):
            if f.endswith((".npz", ".mat", ".npy", ".json")):
                good[os.path.join(data, f)] = open(os.path.join(data, f), "rb").read()
        ref = in_fork(trial, {"root": root, "trial": None, "good": good})
        if ref is None or ref["first"][0] != "ok":
            ctx.fail("intact", f"the intact package does not import: {ref and ref['first']}")
        check_truth(ref["first"][1], ctx)
        strict = in_fork(trial, {"root": root, "trial": None, "good": good, "strict": True})
        ctx.calls["import in a new process"] += 2
        if strict is None or strict["first"][0] != "ok" or diff(ref["first"][1], strict["first"][1]):
            ctx.fail("intact", f"with warnings as errors and traps the intact package: {strict and strict['first'][:2]}")
        if ref["left"]:
            ctx.fail("files", f"importing changed the package directory: {ref['left']}")
        for t in sc["trials"]:
            one(ctx, root, t, good, ref["first"])
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, True)


def check_truth(tab, ctx):
    from .. import refmodel as rm

    const = tab["ut_constants"]["items"]["const"]["items"]
    if const["name"]["items"] != rm.NAMES:
        ctx.fail("intact", "constituent names of the intact package are not those of the distribution")
    where = {"shallow_": "shallow", "sat_": "sat"}
    for key, mine in rm._T.items():
        if key == "names":
            continue
        grp, field = next(
            ((g, key[len(p):]) for p, g in where.items() if key.startswith(p)), ("const", key),
        )
        got = tab["ut_constants"]["items"][grp]["items"].get(field)
        want = np.array([np.nan if x is None else x for x in mine] if np.ndim(mine[0]) == 0 else [
            [np.nan if y is None else y for y in x] for x in mine
        ], float)
        if got is None or np.shape(got) != want.shape or not np.allclose(
            np.asarray(got, float), want, rtol=1e-12, atol=1e-12, equal_nan=True,
        ):
            ctx.fail("intact", f"the table {grp}.{field} of the intact package differs")
    # the tables derived from them
    freq = np.array(rm._T["freq"], float)
    with np.errstate(divide="ignore"):
        per = 1 / freq
    for pub, want in (("cph", freq), ("hpc", per), ("index", np.arange(rm.NC))):
        d = tab[pub]["items"] if isinstance(tab[pub], dict) else {}
        try:
            ok = set(d) == set(rm.NAMES) and all(
                np.isclose(float(d[n]), w, rtol=1e-12, atol=0) for n, w in zip(rm.NAMES, want, strict=True)
            )
        except (TypeError, ValueError, KeyError):
            ok = False
        if not ok:
            ctx.fail("intact", f"the public table {pub!r} of the intact package is not that of the constituents")


def one(ctx, root, t, good, ref):
    ctx.calls["import in a new process"] += 1
    res = in_fork(trial, {"root": root, "trial": t, "good": good})
    for path, b in good.items():
        restore(path, b)
    if res is None:
        # the interpreter itself went down on the corrupted bytes: nothing was computed
        ctx.probes["process died on import"] += 1
        ctx.log(t, "died")
        return
    if res["fired"]:
        ctx.faults[f"{t['on']}: {t['kind']}"] += 1
        ctx.nontrivial = True
    first = res["first"]
    ctx.log(t, first[0], res["fired"])
    ctx.state(t["kind"], t.get("k"), round(t.get("at", 0), 2), first[0])
    if res["left"]:
        ctx.fail("files", f"a failed import changed the package directory: {res['left']}")
    if first[0] == "ok":
        ctx.probes["imported in spite of the fault"] += 1
        verify(ctx, t, first, ref, "with the fault present")
    else:
        ctx.probes["import refused"] += 1
        if not res["fired"]:
            ctx.fail("refused", f"import raised although no fault fired ({t}): {first[1]}")
        if t["kind"] in ("eintr", "short") and t["on"] == "call":
            ctx.fail("refused", f"an interrupted or short read is not an error, but: {first[1]}")
        sec = res["second"]
        if sec[0] != "ok":
            ctx.fail("stuck", f"after {first[1]!r} the import still fails when the fault is gone: {sec[1]}")
        verify(ctx, t, sec, ref, "after the fault was gone")


def verify(ctx, t, got, ref, when):
    for name, a, b in (("tables", ref[1], got[1]), ("results", ref[2], got[2])):
        d = diff(a, b)
        if d:
            ctx.fail("wrong-tables", f"{when} ({t}) the {name} differ: {d[:3]}")


def shrink(sc, rep):
    for t in sc["trials"]:
        if len(sc["trials"]) > 1:
            yield {**copy.deepcopy(sc), "trials": [t]}
