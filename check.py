#!/usr/bin/env python3
"""Entry point of every check:  check.py <PROPERTY> [--replay FILE] [--tier quick|thorough]

Builds the interposer from fsmc/shim.c, then re-executes itself under the repository's Python
with a fixed environment; the check itself lives in checks/<property>.py.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def outer():
    base = tempfile.mkdtemp(prefix="verif_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        lib = os.path.join(base, "libfsmc.so")
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", lib, os.path.join(HERE, "fsmc", "shim.c"), "-ldl"],
                       check=True)
        env = dict(os.environ)
        env.update(
            FSMC_LIB=lib, LD_PRELOAD=lib, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONWARNINGS="ignore", VERIF_INNER="1",
            VERIF_BASE=base, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", MPLCONFIGDIR=os.path.join(base, "mpl"),
            HOME=os.path.join(base, "home"),
        )
        os.makedirs(env["HOME"], exist_ok=True)
        p = subprocess.Popen([PY, os.path.abspath(__file__), *sys.argv[1:]], env=env, cwd=base,
                             start_new_session=True)
        try:
            rc = p.wait()
        finally:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
        return rc
    finally:
        shutil.rmtree(base, ignore_errors=True)


def inner():
    sys.path.insert(0, HERE)
    from lib import harness

    return harness.main(sys.argv[1:])


if __name__ == "__main__":
    if os.environ.get("VERIF_INNER"):
        os.environ.pop("LD_PRELOAD", None)
        sys.exit(inner())
    sys.exit(outer())
