"""
Fault seams around the code under test: failing allocations and numerical kernels,
broken output streams, failing / short file reads, and the snapshot of everything in
the process a library call has no business changing.
"""

import builtins
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

from .compare import snap
from .sched import PKG_PREFIX

# ------------------------------------------------------------- kernels
_NP = (
    "hstack vstack dot empty empty_like zeros zeros_like ones ones_like exp angle array "
    "asarray asanyarray median interp diff unique sum prod cumsum argsort nonzero "
    "concatenate copy diag sqrt arctan2 sin cos abs real imag conj mod fmod outer "
    "atleast_1d atleast_2d linspace arange var ptp mean full column_stack isnan isfinite "
    "where logical_and einsum maximum minimum"
).split()
_LA = "lstsq inv svd pinv eigvals cond matrix_rank solve norm qr cholesky".split()
_RND = "multivariate_normal normal standard_normal randn".split()
_MA = "masked_invalid getmaskarray mask_or array masked_array".split()
_FFT = "fft rfft ifft".split()


class OpFaults:
    """
    Wraps numpy entry points; calls whose direct caller is the package are counted,
    and the k-th one fails with `exc`.  With collect=True only the sites are recorded.
    """

    def __init__(self, k=None, exc=None, collect=False, sticky=False, only=None):
        """only: a tag; every call of that kernel from its k-th on fails"""
        self.k, self.exc, self.collect = k, exc, collect
        self.only = only
        self.sticky = sticky
        self.count = 0
        self.hits = 0
        self.sites = []
        self.fired = None
        self._undo = []
        self._files = {}

    def _from_pkg(self, fn):
        r = self._files.get(fn)
        if r is None:
            r = os.path.realpath(fn).startswith(PKG_PREFIX)
            self._files[fn] = r
        return r

    def _wrap(self, mod, name, tag):
        orig = getattr(mod, name, None)
        if orig is None or isinstance(orig, type):
            return
        me = self

        def wrapper(*a, **kw):
            f = sys._getframe(1)
            if me._from_pkg(f.f_code.co_filename) and me.only in (None, tag):
                me.count += 1
                if me.collect:
                    me.sites.append(
                        (tag, os.path.basename(f.f_code.co_filename), f.f_lineno),
                    )
                if (
                    me.k is not None
                    and me.count >= me.k
                    and (me.fired is None or me.only or (me.sticky and tag == me.fired[0]))
                ):
                    me.hits += 1
                    me.fired = (tag, os.path.basename(f.f_code.co_filename), f.f_lineno)
                    raise me.exc
            return orig(*a, **kw)

        wrapper.__name__ = name
        for attr in ("reduce", "accumulate", "outer", "at"):
            if hasattr(orig, attr):
                try:
                    setattr(wrapper, attr, getattr(orig, attr))
                except Exception:
                    pass
        setattr(mod, name, wrapper)
        self._undo.append((mod, name, orig))

    def __enter__(self):
        for n in _NP:
            self._wrap(np, n, n)
        for n in _LA:
            self._wrap(np.linalg, n, "linalg." + n)
        for n in _RND:
            self._wrap(np.random, n, "random." + n)
        for n in _MA:
            self._wrap(np.ma, n, "ma." + n)
        for n in _FFT:
            self._wrap(np.fft, n, "fft." + n)
        return self

    def __exit__(self, *a):
        for mod, name, orig in reversed(self._undo):
            setattr(mod, name, orig)
        return False


# ------------------------------------------------------------- streams
class FaultyStream(io.TextIOBase):
    """
    A text stream as the process may have it: records what is written, and fails as
    instructed from the k-th operation on.
    """

    def __init__(self, mode="ok", k=1):
        self.mode, self.k = mode, k
        self.ops = 0
        self.text = []
        self.fired = 0

    def _fault(self):
        self.ops += 1
        if self.mode == "ok" or self.ops < self.k:
            return
        self.fired += 1
        if self.mode == "epipe":
            raise BrokenPipeError(32, "Broken pipe")
        if self.mode == "enospc":
            raise OSError(28, "No space left on device")
        if self.mode == "closed":
            raise ValueError("I/O operation on closed file.")
        if self.mode == "eintr":
            self.k = self.ops + 1000000
            raise InterruptedError(4, "Interrupted system call")
        if self.mode == "unicode":
            raise UnicodeEncodeError("ascii", "x", 0, 1, "cannot encode")

    def writable(self):
        return True

    def write(self, s):
        self._fault()
        self.text.append(s)
        return len(s)

    def flush(self):
        self._fault()

    @property
    def encoding(self):
        return "utf-8"

    def getvalue(self):
        return "".join(self.text)


class Streams:
    """Replace sys.stdout / sys.stderr for the duration of a call."""

    def __init__(self, out, err="same"):
        self.out, self.err = out, err

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        sys.stdout = self.out
        if self.err != "same":
            sys.stderr = self.err
        return self

    def __exit__(self, *a):
        self.after = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.saved
        return False


# ------------------------------------------------------------- ambient state
def tables_snapshot(utide):
    return {
        "ut_constants": snap(utide.ut_constants),
        "constit_index_dict": snap(utide.constit_index_dict),
        "hours_per_cycle": snap(utide.hours_per_cycle),
        "cycles_per_hour": snap(utide.cycles_per_hour),
    }


def rng_state():
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), *st[2:], hash(random.getstate()))


def _fds():
    try:
        return sorted(os.listdir("/proc/self/fd"))
    except OSError:
        return []


def ambient(utide, rng=True):
    """Process state visible to every other part of the user's program."""
    a = {
        "np.geterr": dict(np.geterr()),
        "np.geterrcall": repr(np.geterrcall()),
        "np.printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
        "warnings.filters": repr(warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "sys.stdout": id(sys.stdout),
        "sys.stderr": id(sys.stderr),
        "os.environ": dict(os.environ),
        "cwd": os.getcwd(),
        "sys.path": list(sys.path),
        "recursionlimit": sys.getrecursionlimit(),
        "gc.enabled": gc.isenabled(),
        "locale": locale.setlocale(locale.LC_ALL),
        "sigint": repr(signal.getsignal(signal.SIGINT)),
        "sigalrm": repr(signal.getsignal(signal.SIGALRM)),
        "excepthook": id(sys.excepthook),
        "threads": threading.active_count(),
        "builtins.print": id(builtins.print),
        "builtins.open": id(builtins.open),
        "gc.threshold": gc.get_threshold(),
        "switchinterval": sys.getswitchinterval(),
        "decimal": (decimal.getcontext().prec, decimal.getcontext().rounding),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "tempdir": tempfile.tempdir,
        "socket timeout": socket.getdefaulttimeout(),
        "alarm": signal.getitimer(signal.ITIMER_REAL)[1],
    }
    if rng:
        a["random streams"] = rng_state()
    return a


def ambient_diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


def fd_count():
    gc.collect()
    return len(_fds())
