#!/usr/bin/env python3
"""Entry point of every check:  python run.py <property id> [--replay FILE].

Stage 0 (any python3) builds a private environment (fresh numba and byte-code
caches, so that nothing stale can hide a change of /repo) and starts stage 1
with the interpreter that has dcor's dependencies.  Stage 1 imports dcor from
/repo's working tree and runs the property.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


def stage0():
    work = tempfile.mkdtemp(prefix="vp-")
    env = dict(os.environ)
    for name in ("NUMBA_DISABLE_JIT", "PYTHONPATH", "PYTHONSTARTUP",
                 "PYTHONWARNINGS", "PYTHONOPTIMIZE"):
        env.pop(name, None)
    env.update(
        VERIF_STAGE="1",
        VERIF_WORK=work,
        VERIF_REPO=REPO,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"),
        PYTHONHASHSEED="0",
        NUMBA_CACHE_DIR=os.path.join(work, "numba"),
        NUMBA_NUM_THREADS="4",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        JOBLIB_TEMP_FOLDER=os.path.join(work, "joblib"),
        TMPDIR=work,
    )
    dev = os.environ.get("VERIF_DEV_CACHE")
    if dev:  # development only: reuse compiled code of identical sources
        import hashlib
        h = hashlib.sha256()
        d = os.path.join(REPO, "dcor")
        for root, dirs, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + str(os.stat(p).st_mtime_ns).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        env["NUMBA_CACHE_DIR"] = os.path.join(dev, h.hexdigest()[:16])
    os.makedirs(env["JOBLIB_TEMP_FOLDER"], exist_ok=True)
    try:
        p = subprocess.Popen([PYTHON, os.path.abspath(__file__)] + sys.argv[1:],
                             env=env, cwd=HERE)
        try:
            rc = p.wait()
        except BaseException:
            p.terminate()
            p.wait()
            raise
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


if __name__ == "__main__":
    if os.environ.get("VERIF_STAGE") != "1":
        stage0()
    sys.path.insert(0, HERE)
    from vp import core
    sys.exit(core.main(sys.argv[1:]))
