"""
Snapshots of argument and result objects, and comparison of snapshots.

A snapshot is plain data (dicts, lists, ndarrays, scalars) that shares no memory
with the object it was taken from.
"""

import datetime

import numpy as np


def snap(o, depth=0):
    if depth > 12:
        return ("deep", type(o).__name__)
    if isinstance(o, str):
        return str(o)  # also of a numpy string
    if isinstance(o, float):
        return float(o)
    if o is None or isinstance(o, (bool, int, complex, bytes)):
        return o
    if isinstance(o, np.ma.MaskedArray):
        return {
            "__ma__": True,
            "data": snap(np.array(o.data, copy=True), depth + 1),
            "mask": np.array(np.ma.getmaskarray(o), copy=True),
        }
    if isinstance(o, np.ndarray):
        if o.dtype.kind == "O":
            return {
                "__oarr__": list(o.shape),
                "items": [snap(x, depth + 1) for x in o.ravel().tolist()],
            }
        return np.array(o, copy=True, order="K", subok=False)
    if isinstance(o, np.generic):
        return o.item() if o.dtype.kind in "biufcUS" else str(o)
    if isinstance(o, dict):
        return {
            "__dict__": type(o).__name__,
            "items": {str(k): snap(v, depth + 1) for k, v in o.items()},
        }
    if isinstance(o, (list, tuple)):
        return {
            "__seq__": type(o).__name__,
            "items": [snap(x, depth + 1) for x in o],
        }
    if isinstance(o, (set, frozenset)):
        return {"__set__": sorted(map(repr, o))}
    if isinstance(o, (datetime.datetime, datetime.date)):
        return repr(o)
    mod = type(o).__module__
    if mod.startswith("pandas"):
        try:
            return {
                "__pd__": type(o).__name__,
                "values": snap(np.asarray(o), depth + 1),
                "index": repr(getattr(o, "index", None)),
            }
        except Exception:
            return repr(o)
    return ("opaque", type(o).__name__)


def _num(x):
    return isinstance(x, (int, float, complex)) and not isinstance(x, bool)


def _arr_diff(a, b, rtol, atol, path, out):
    if a.shape != b.shape:
        out.append(f"{path}: shape {a.shape} != {b.shape}")
        return
    if a.dtype.kind in "biufc" and b.dtype.kind in "biufc":
        if a.dtype.kind == b.dtype.kind and a.tobytes() == b.tobytes():
            return
        fa = a.astype(complex) if "c" in (a.dtype.kind, b.dtype.kind) else a.astype(float)
        fb = b.astype(fa.dtype)
        bad_a = ~np.isfinite(fa)
        bad_b = ~np.isfinite(fb)
        if not np.array_equal(bad_a, bad_b) or not np.array_equal(
            fa[bad_a],
            fb[bad_b],
            equal_nan=True,
        ):
            out.append(f"{path}: non-finite pattern differs")
            return
        x, y = fa[~bad_a], fb[~bad_b]
        if x.size == 0:
            return
        scale = max(np.abs(x).max(), np.abs(y).max())
        d = np.abs(x - y)
        key = path.rsplit(".", 1)[-1]
        if rtol > 0 and key in ("g", "theta") and "c" not in (a.dtype.kind, b.dtype.kind):
            p = 360 if key == "g" else 180
            d = np.abs((x - y + p / 2) % p - p / 2)
            scale = p
        elif rtol > 0 and key in ("mean", "umean", "vmean", "slope", "uslope", "vslope"):
            scale = max(scale, 1.0)  # what matters is the size of the series
        lim = rtol * (np.abs(x) + np.abs(y)) + atol * scale
        if (d > lim).any():
            k = int(np.argmax(d - lim))
            out.append(
                f"{path}: max |diff| {d.max():.3g} (e.g. {x[k]!r} vs {y[k]!r})",
            )
        return
    if a.dtype.kind != b.dtype.kind or a.tobytes() != b.tobytes():
        out.append(f"{path}: arrays differ ({a.dtype} vs {b.dtype})")


def diff(a, b, rtol=0.0, atol=0.0, path="", out=None, skip=()):
    """List of differences (strings); empty when equal within tolerance.

    rtol: relative to the elements; atol: relative to the largest element of
    the array (0/0: bitwise)."""
    if out is None:
        out = []
    if len(out) > 8:
        return out
    if path in skip:
        return out
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        _arr_diff(a, b, rtol, atol, path, out)
    elif _num(a) and _num(b):
        _arr_diff(np.array(a), np.array(b), rtol, atol, path, out)
    elif isinstance(a, dict) and isinstance(b, dict):
        ia = a.get("items") if "__dict__" in a else None
        ib = b.get("items") if "__dict__" in b else None
        if isinstance(ia, dict) and isinstance(ib, dict):
            if a["__dict__"] != b["__dict__"]:
                out.append(f"{path}: type {a['__dict__']} != {b['__dict__']}")
            ka, kb = set(ia), set(ib)
            if ka != kb:
                out.append(f"{path}: keys differ {sorted(ka ^ kb)}")
            for k in sorted(ka & kb):
                diff(ia[k], ib[k], rtol, atol, f"{path}.{k}", out, skip)
        else:
            if set(a) != set(b):
                out.append(f"{path}: kinds differ {sorted(set(a) ^ set(b))}")
            for k in sorted(set(a) & set(b)):
                diff(a[k], b[k], rtol, atol, path, out, skip)
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append(f"{path}: length {len(a)} != {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, rtol, atol, f"{path}[{i}]", out, skip)
    elif type(a) is not type(b):
        out.append(f"{path}: {type(a).__name__} {str(a)[:60]} vs {type(b).__name__} {str(b)[:60]}")
    elif a != b:
        out.append(f"{path}: {str(a)[:80]!r} != {str(b)[:80]!r}")
    return out
