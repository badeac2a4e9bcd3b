#!/opt/venv/bin/python
"""plant.py mk SPEC...  build seeded/<id>/ from a spec (a Python file with PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO) and confirm it: patch applies, builds, tests pass, demo fails with it and
passes without.   plant.py run ID...  apply, run the property's quick check, undo; prints CAUGHT or MISSED."""

import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = os.path.join(HERE, "seeded")


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    if sh("git", "-C", REPO, "status", "--porcelain").stdout.strip():
        sys.exit("/repo is not clean")


def undo():
    sh("git", "-C", REPO, "checkout", "--", ".")


def demo(d):
    return sh("bash", os.path.join(d, "demo.sh"), cwd=REPO, timeout=300)


def mk(spec):
    clean()
    ns = runpy.run_path(spec)
    id_ = os.path.splitext(os.path.basename(spec))[0]
    d = os.path.join(SEEDED, id_)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", REPO, "diff").stdout
        # changed lines must be original ones
        base = {}
        for f, old, _ in ns["EDITS"]:
            base[f] = sh("git", "-C", REPO, "show", f"b07d23d:{f}").stdout.splitlines()
        removed = [x[1:] for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
        allbase = {x for b in base.values() for x in b}
        mine = [x for x in removed if x not in allbase]
        if mine:
            print("  !! changes lines that are not original:", mine)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0 when the behaviour is right, 1 when it is broken; cwd is the repository\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n',
        )
        json.dump(
            {"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
            open(os.path.join(d, "meta.json"), "w"),
            indent=1,
        )
        b = sh("bash", "/opt/vp/build.sh")
        t = sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
        r = demo(d)
        ok = b.returncode == 0 and "22 passed, 0 failed" in t.stdout and r.returncode == 1
        print(id_, "build", b.returncode, "tests", t.stdout.strip().splitlines()[-1], "demo with", r.returncode)
        print("   ", (r.stdout + r.stderr).strip()[-300:])
    finally:
        undo()
    sh("bash", "/opt/vp/build.sh")
    r2 = demo(d)
    if r2.returncode != 0:
        print("   demo on the clean tree:", r2.returncode, (r2.stdout + r2.stderr)[-500:])
    if not (ok and r2.returncode == 0):
        print("   REJECTED", id_)
        shutil.rmtree(d)
        return False
    return True


def run(id_, *extra):
    clean()
    d = os.path.join(SEEDED, id_)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    a = sh("git", "-C", REPO, "apply", os.path.join(d, "patch.diff"))
    if a.returncode:
        print(id_, "does not apply", a.stderr)
        return
    try:
        env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        props = extra or [prop]
        for p in props:
            r = sh("/opt/venv/bin/python", "check.py", "check", p, cwd=HERE, env=env)
            hit = f"VIOLATION property={p}" in r.stdout and r.returncode == 1
            det = [x for x in r.stdout.splitlines() if x.startswith(("detail", "violation class"))]
            print(id_, p, "CAUGHT" if hit else f"MISSED rc={r.returncode}", " | ".join(det)[:300], flush=True)
            if not hit:
                print("    ", r.stdout[-300:], r.stderr[-300:])
    finally:
        undo()


if __name__ == "__main__":
    if sys.argv[1] == "mk":
        for s in sys.argv[2:]:
            if mk(s):
                run(os.path.splitext(os.path.basename(s))[0])
    else:
        for s in sys.argv[2:]:
            i, *e = s.split("=")
            run(i, *(e[0].split(",") if e else []))
