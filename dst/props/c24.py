"""
C24  A data file is read completely and correctly or not at all.

A station keeps records and coefficients in Matlab-style files (.mat, .npz, nested
structures).  Files are replaced - by others of the same name, size and date -, removed,
torn by crashes, damaged on the medium, and read calls fail, are cut short or run out of
memory and descriptors.  loadbunch either raises or returns exactly the tree that was
stored, nothing left open, nothing remembered from the file that was there before.
"""

import copy
import gc
import io
import os
import shutil
import tempfile

import numpy as np

from ..compare import diff, snap
from ..core import rng_for
from .c14 import Seam, damage, in_fork

ID = "C24"
COUNTS = {"quick": 300, "thorough": 5000}
LIMIT = 120.0
RULE = (
    "3-7 files of nested structures (.mat plain or compressed, .npz stored, compressed, or with structures in object "
    "arrays) written, replaced, damaged and read with failing read calls; non-trivial: a fault fired on a load and "
    "an undamaged file was read afterwards"
)
STATES = "distinct (format, fault, place, outcome)"
REAL = ["utide.utilities (loadbunch, showmatbunch, convert_unicode_arrays, Bunch)", "scipy.io, numpy.load, zipfile"]
STUB = ["medium (scratch directory with injected faults)", "open() of that directory (fault seam)"]
ASSUMPTIONS = [
    ".mat files carry no checksums (scipy skips what it cannot read): no damaged bytes are injected in them, only "
    "read errors and missing or empty files",
]
NAMES = ["M2", "A", "g", "aux", "t", "coef", "name", "mean", "values", "keys", "update", "lat", "x1", "opt", "items",
         "a_b", "zz", "Lsmaj", "items2", "copy_"]


def gen_leaf(rng):
    k = rng.choice(["vec", "vec", "col", "mat", "cube", "ints", "cplx", "float", "int", "nan", "str", "strs", "chars", "f4",
                    "badvec", "badvec", "badmat", "badcplx", "one", "allbad", "inf", "long", "sets", "blanks"])
    return {"leaf": k, "n": rng.randint(2, 9), "m": rng.randint(2, 5), "seed": rng.randrange(1 << 30)}


def gen_tree(rng, depth=0):
    d = {}
    for k in rng.sample(NAMES, rng.randint(1, 5)):
        d[k] = gen_tree(rng, depth + 1) if depth < 3 and rng.random() < 0.3 else gen_leaf(rng)
    return d or {"M2": gen_leaf(rng)}


def generate(rng, tier, i):
    ops = []
    tree = gen_tree(rng)
    for k in range(rng.randint(3, 7)):
        if rng.random() < 0.4:
            tree = gen_tree(rng)
        elif rng.random() < 0.6:  # the same file with other numbers
            tree = reseed(tree, rng.randrange(1 << 30))
        o = {
            "tree": tree,
            "fmt": rng.choice(["mat", "matz", "npz", "npzz", "npz"]),
            "file": rng.choice(["a", "a", "b"]),
            "masked": rng.random() < 0.7,
            "plain": rng.random() < 0.5,  # masked is the default
            "oned": rng.choice(["row", "column"]),
            "after": rng.choice(["keep", "delete", "scribble"]),
        }
        r = rng.random()
        if r < 0.35:
            if o["fmt"] in ("mat", "matz"):
                o["fault"] = {"on": "medium", "kind": rng.choice(["missing", "dir", "empty"]), "at": 0, "bit": 0, "len": 1}
            else:
                o["fault"] = {"on": "medium", "kind": rng.choice(["flip", "flip", "zero", "repeat", "torn", "truncate", "truncate",
                              "append", "empty", "missing", "dir", "swap"]), "at": rng.random(), "bit": rng.randrange(8),
                              "len": rng.choice([1, 4, 16, 512])}
        elif r < 0.7:
            o["fault"] = {"on": "call", "kind": rng.choice(["eio", "eintr", "short", "nomem", "emfile", "eacces", "enoent"]),
                          "k": rng.choice([1, 1, 2, 3, 5, 8]), "sticky": rng.random() < 0.5}
        else:
            o["fault"] = None
        ops.append(o)
    ops[-1]["fault"] = None
    return {"ops": ops}


def reseed(tree, seed):
    if "leaf" in tree and isinstance(tree["leaf"], str):
        return dict(tree, seed=(tree["seed"] + seed) % (1 << 30))
    return {k: reseed(v, seed) for k, v in tree.items()}


def is_leaf(x):
    return isinstance(x.get("leaf"), str)


def leaf(x, mat):
    """-> (what is stored, what loadbunch must give with masked=True, with masked=False)"""
    r = rng_for("leaf", x["seed"])
    n, m, k = x["n"], x["m"], x["leaf"]
    g = np.random.Generator(np.random.PCG64(x["seed"]))
    w = ["".join(r.choice("MNKOPQ2134") for _ in range(r.randint(1, 5))) for _ in range(n)]
    if k in ("float", "int", "nan", "str"):
        v = {"float": float(g.standard_normal()), "int": r.randrange(-1000, 1000), "nan": float("nan"), "str": w[0] * 3}[k]
        return v, v, v
    if k == "one":
        v = np.array([[g.standard_normal()]])
        return v, v.item(), v.item()
    if k == "strs":
        v = np.empty(n, dtype=object)
        v[:] = w
        return v, ("strs", w), ("strs", w)
    if k == "long":
        v = "".join(r.choice("MNKOPQ 2134") for _ in range(r.choice([6, 30, 48, 49, 50, 51, 200]))) + "x"
        v = "x" + v[1:]
        return v, v, v
    if k == "sets":  # a cell of lists of names (and single ones)
        v = np.empty(n, dtype=object)
        size = [r.choice([1, 2, 2, 3]) for _ in range(n)]
        for j, z in enumerate(size):
            v[j] = np.array([r.choice("MNKOS") + r.choice("1234") for _ in range(z)])
        return v, ("sets", [list(x) for x in v]), ("sets", [list(x) for x in v])
    if k == "blanks":
        w = [(" " * r.randint(0, 2) + s).ljust(8) for s in w]
        return np.array(w), ("strs", [s.rstrip() for s in w]), ("strs", [s.rstrip() for s in w])
    if k == "chars":
        v = np.array([s.ljust(5) for s in w])
        return v, ("strs", w), ("strs", w)
    shape = {"col": (n, 1), "mat": (n, m), "cube": (1, n, m), "badmat": (n, m)}.get(k, (n,))
    v = g.standard_normal(shape)
    if k == "ints":
        v = g.integers(-99, 99, n).astype(r.choice(["i8", "i4", "u1", "i2"]))
    elif k == "f4":
        v = v.astype("f4")
        if r.random() < 0.5:
            v[0] = np.nan
    elif k in ("cplx", "badcplx"):
        v = v + 1j * g.standard_normal(shape)
    if k.startswith("bad"):
        v.flat[r.randrange(v.size)] = np.nan
        if k != "badcplx":
            v.flat[r.randrange(v.size)] = r.choice([np.inf, -np.inf, np.nan])
    elif k == "allbad":
        v[:] = np.nan
    elif k == "inf":
        v[r.randrange(n)] = np.inf
    q = v.squeeze()
    mk = q
    if q.dtype.kind == "f" and not np.isfinite(q).all():
        mk = np.ma.masked_array(q, ~np.isfinite(q))
    return v, mk, q


def stored(tree, mat, npz_struct=False, top=True):
    """the object handed to savemat / savez"""
    d = {}
    for k, v in tree.items():
        if is_leaf(v):
            a = leaf(v, mat)[0]
            if not mat and not top and not isinstance(a, str):
                a = np.atleast_2d(a)  # as it lies in a Matlab structure
        else:
            a = stored(v, mat, npz_struct, False)
        d[k] = a
    if mat or top:
        return d
    s = np.empty((1, 1), dtype=[(k, "O") for k in d])
    s[0, 0] = tuple(d.values())
    return s


def expected(tree, masked):
    return {k: (leaf(v, True)[1 if masked else 2] if is_leaf(v) else expected(v, masked)) for k, v in tree.items()}


def write(path, o):
    import scipy.io

    if o["fmt"] in ("mat", "matz"):
        with open(path, "wb") as f:
            scipy.io.savemat(f, stored(o["tree"], True), do_compression=o["fmt"] == "matz", oned_as=o["oned"], long_field_names=True)
    else:
        with open(path, "wb") as f:
            (np.savez_compressed if o["fmt"] == "npzz" else np.savez)(f, **stored(o["tree"], False))
    os.utime(path, (1_600_000_000, 1_600_000_000))


def match(want, got, path=""):
    """-> description of the first difference, or None"""
    from utide.utilities import Bunch

    if isinstance(want, dict):
        if type(got) is not Bunch:
            return f"{path}: {type(got).__name__} instead of a Bunch"
        if set(want) != set(got):
            return f"{path}: keys {sorted(got)} instead of {sorted(want)}"
        for k in want:
            d = match(want[k], got[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(want, tuple):
        if not isinstance(got, np.ndarray) or got.shape != (len(want[1]),):
            return f"{path}: {got!r} instead of the names {want[1]}"
        if want[0] == "sets":
            for x, y in zip(want[1], got, strict=True):
                if isinstance(y, str) != (len(x) == 1) or list(map(str, np.ravel(y))) != x:
                    return f"{path}: {y!r} instead of {x}"
            return None
        if [str(x) for x in got] != want[1]:
            return f"{path}: {list(got)} instead of the names {want[1]}"
        return None
    if isinstance(want, np.ma.MaskedArray) != isinstance(got, np.ma.MaskedArray):
        return f"{path}: {type(got).__name__} instead of {type(want).__name__}"
    if isinstance(want, np.ma.MaskedArray):
        if got.dtype != want.dtype or got.shape != want.shape or not np.array_equal(np.ma.getmaskarray(got), want.mask):
            return f"{path}: another mask, shape or dtype"
        if not np.array_equal(got.compressed(), want.compressed()):
            return f"{path}: other values"
        return None
    if isinstance(want, np.ndarray):
        if not isinstance(got, np.ndarray) or got.dtype != want.dtype or got.shape != want.shape:
            return f"{path}: {got!r} instead of {want!r}"
        if not np.array_equal(got, want, equal_nan=want.dtype.kind in "fc"):
            return f"{path}: other values"
        return None
    if isinstance(got, np.ndarray) or isinstance(got, (str, int, float)) and isinstance(got, str) != isinstance(want, str):
        return f"{path}: {got!r} instead of {want!r}"
    if got != want and not (want != want and got != got):
        return f"{path}: {got!r} instead of {want!r}"
    return None


def paths(tree, p=""):
    out = []
    for k, v in tree.items():
        q = f"{p}.{k}" if p else k
        out += [q] if is_leaf(v) else paths(v, q)
    return out


def entries(b, p=""):
    """what is to be said of each item"""
    out = []
    for k, v in b.items():
        q = f"{p}.{k}" if p else k
        if isinstance(v, dict):
            out += entries(v, q)
        elif isinstance(v, str):
            out.append((q, v if len(v) < 50 else f"string, {len(v)} characters"))
        elif isinstance(v, np.ma.MaskedArray):
            out.append((q, f"masked array, shape {v.shape}, dtype {v.dtype}"))
        elif isinstance(v, np.ndarray):
            out.append((q, f"ndarray, shape {v.shape}, dtype {v.dtype}"))
        else:
            out.append((q, f"{type(v).__name__} {v}"))
    return out


def handles(root):
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            if os.readlink(f"/proc/self/fd/{f}").startswith(root):
                out.append(f)
        except OSError:
            pass
    return out


def load_all(p):
    """Run in a process of its own: the whole history; -> one outcome per file."""
    from .. import target

    target.load()
    from utide.utilities import Bunch, convert_unicode_arrays, loadbunch, showmatbunch

    import warnings

    warnings.simplefilter("ignore")
    out = []
    root = p["root"]
    for o in p["ops"]:
        ext = ".mat" if o["fmt"].startswith("mat") else ".npz"
        path = os.path.join(root, o["file"] + ext)
        if os.path.isdir(path):
            os.rmdir(path)
        write(path, o)
        good = open(path, "rb").read()
        f = o["fault"]
        r = {"fired": False}
        seam = None
        if f and f["on"] == "medium":
            r["fired"] = damage(path, f)
            if ext == ".npz" and other_archive(path, o["tree"]):
                out.append({"skip": True})
                continue
        elif f:
            seam = Seam(root, f)
        try:
            b = loadbunch(path) if o["masked"] and o.get("plain") else loadbunch(path, masked=o["masked"])
        except Exception as e:
            r["raised"] = f"{type(e).__name__}: {str(e)[:120]}"
            del e
            b = None
        if seam is not None:
            r["fired"] = seam.fired > 0
            seam.on = False
            import builtins

            builtins.open = io.open = seam.real
        if b is None:
            gc.collect()
        r["open"] = len(handles(root))
        if b is None and f:
            if os.path.isdir(path):
                os.rmdir(path)
            with open(path, "wb") as h:
                h.write(good)
            os.utime(path, (1_600_000_000, 1_600_000_000))
            r["retried"] = True
            try:
                b = loadbunch(path) if o["masked"] and o.get("plain") else loadbunch(path, masked=o["masked"])
            except Exception as e:
                r["again"] = f"{type(e).__name__}: {str(e)[:120]}"
                b = None
        if b is not None:
            if o["after"] == "delete" and not os.path.isdir(path):
                os.unlink(path)
            elif o["after"] == "scribble" and not os.path.isdir(path):
                with open(path, "r+b") as h:
                    h.write(b"\xff" * len(good))
            before = snap(b)
            try:
                text = showmatbunch(b)
                c = convert_unicode_arrays(b)
            except Exception as e:
                out.append({**r, "bad": f"showing or converting raises {type(e).__name__}: {e}"})
                continue
            if diff(before, snap(b)):
                r["bad"] = "showing or converting changed it"
            elif match(expected(o["tree"], o["masked"]), c):
                r["bad"] = match(expected(o["tree"], o["masked"]), c)
            elif o["after"] == "keep" and not r["fired"] and showmatbunch(path) != showmatbunch(loadbunch(path)):
                r["bad"] = "showmatbunch of the file differs from that of its contents"
            else:
                shown = [x.split(" :")[0].strip() for x in text.splitlines() if " : " in x]
                if sorted(shown) != sorted(paths(o["tree"])):
                    r["bad"] = f"showmatbunch lists {shown}"
                said = dict((x[: x.index(" : ")].strip(), x[x.index(" : ") + 3 :]) for x in text.splitlines() if " : " in x)
                for q, x in entries(b):
                    if said.get(q, x) != x:
                        r["bad"] = f"showmatbunch says {said[q]!r} of {q}, which is {x}"
        out.append(r)
    return {"out": out}


def other_archive(path, tree):
    """the damage made it a different, but sound archive (its directory has no checksum)"""
    import zipfile

    try:
        with zipfile.ZipFile(path) as z:
            return sorted(z.namelist()) != sorted(f"{k}.npy" for k in tree)
    except Exception:
        return False


def execute(sc, ctx):
    from .. import target

    target.load()
    root = os.path.realpath(tempfile.mkdtemp(prefix="c24-", dir=os.environ.get("DST_TMP")))
    try:
        res = in_fork(load_all, {"root": root, "ops": sc["ops"]})
    finally:
        shutil.rmtree(root, True)
    if res is None:
        ctx.probes["process died on a damaged file"] += 1
        return
    fired = False
    for o, r in zip(sc["ops"], res["out"]):
        f = o["fault"]
        if r.get("skip"):
            ctx.probes["damaged into another sound archive, not judged"] += 1
            continue
        ctx.calls["loadbunch"] += 1
        kind = f"{f['on']}: {f['kind']}" if f else None
        where = f"{o['fmt']} file ({kind or 'intact'})"
        if r["fired"]:
            ctx.faults[kind] += 1
        ctx.log(o["fmt"], kind, r["fired"], "raised" in r)
        ctx.state(o["fmt"], kind, f and round(f.get("at", f.get("k", 0)), 1), "raised" in r)
        if "raised" in r:
            if not r["fired"]:
                ctx.fail("refused", f"{where}: {r['raised']} although nothing was wrong")
            if f["on"] == "call" and f["kind"] in ("short", "eintr"):
                if f["kind"] == "short":
                    ctx.fail("refused", f"{where}: a short read is no error, but {r['raised']}")
        if "again" in r:
            ctx.fail("stuck", f"{where}: the mended file is refused: {r['again']}")
        if r.get("bad"):
            ctx.fail("wrong-contents", f"{where}{', mended' if r.get('retried') else ''}: {r['bad']}")
        if r["open"]:
            ctx.fail("left-open", f"{where}: {r['open']} file(s) left open")
        if not r["fired"] and fired:
            ctx.nontrivial = True
        fired = fired or r["fired"]


def shrink(sc, rep):
    for k in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            c = copy.deepcopy(sc)
            del c["ops"][k]
            yield c
    for k, o in enumerate(sc["ops"]):
        for n in list(o["tree"]):
            if len(o["tree"]) > 1:
                c = copy.deepcopy(sc)
                del c["ops"][k]["tree"][n]
                yield c
