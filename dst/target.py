"""
Loading the code under test.

The package is imported from the working tree of /repo (or UTIDE_REPO), never from
cached byte code: the byte-code cache is pointed at a fresh temporary directory.
While `utide` is imported, locks it creates come from the simulator, so that a
thread parked by the scheduler while holding a lock cannot dead-lock the run.
"""

import os
import sys

REPO = os.environ.get("UTIDE_REPO", "/repo")
PKG = os.path.join(REPO, "utide")


def setup_path():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


_mod = None


def load():
    """import utide (once per process) with simulator locks in place."""
    global _mod
    if _mod is None:
        setup_path()
        from . import sched

        sched.install_lock_seam()
        # never from a byte-code cache
        prefix, sys.pycache_prefix = sys.pycache_prefix, os.devnull + "/none"
        sys.dont_write_bytecode = True
        try:
            import utide
        finally:
            sys.pycache_prefix = prefix

        want = os.path.realpath(os.path.join(PKG, "__init__.py"))
        got = os.path.realpath(utide.__file__)
        if want != got:
            raise RuntimeError(f"utide imported from {got}, wanted {want}")
        _mod = utide
    return _mod
