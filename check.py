#!/opt/venv/bin/python
"""
python check.py check C01 [--tier quick|thorough]   one registered check
python check.py replay FILE                         replay a violation
python check.py setup                            nothing to build: prints versions
python check.py selftest [...]                      determinism of the simulator
"""

import os
import sys

ENV = {
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "DST_ENV": "1",
}
PY = "/opt/venv/bin/python"


def reexec():
    import atexit
    import shutil
    import subprocess
    import tempfile

    tmp = tempfile.mkdtemp(prefix="dst-")
    atexit.register(shutil.rmtree, tmp, True)
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault("PYTHONHASHSEED", "0")
    env["PYTHONPYCACHEPREFIX"] = os.path.join(tmp, "pyc")
    env["DST_TMP"] = tmp
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP", "PYTHONWARNINGS"):
        env.pop(k, None)
    py = PY if os.path.exists(PY) else sys.executable
    return subprocess.call([py, "-B", os.path.abspath(__file__), *sys.argv[1:]], env=env)


def main(argv):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from dst import runner

    if not argv:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if argv[0] == "check":
        return runner.check(argv[1], tier, seed)
    if argv[0] == "replay":
        return runner.replay(argv[1], "--raw" in argv)
    if argv[0] == "setup":
        import pandas
        import numpy
        import scipy.signal

        print("python", sys.version.split()[0], "numpy", numpy.__version__, "scipy",
              scipy.__version__, "pandas", pandas.__version__)
        return 0
    if argv[0] == "selftest":
        from dst import selftest

        return selftest.main(argv[1:], seed)
    print(__doc__)
    return 2


if __name__ == "__main__":
    if os.environ.get("DST_ENV") != "1" or "DST_TMP" not in os.environ:
        sys.exit(reexec())
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        print("HARNESS-ERROR (see traceback)")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
