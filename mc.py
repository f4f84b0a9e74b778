#!/usr/bin/env python3
"""Launcher: python3 mc.py <property id> [--replay FILE] [--jobs N].

Runs one check in a fresh interpreter that imports py_fatigue from /repo's
working tree, with private byte-code and numba caches that are removed again.
"""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
# scratch copies are checked by pointing these elsewhere (tools only)
REPO = os.environ.get("MCHECK_REPO", "/repo")


def main() -> int:
    scratch = tempfile.mkdtemp(prefix="pfmc-")
    env = dict(os.environ)
    for key in ("PYTHONHOME", "PYTHONSTARTUP", "PYTHONWARNINGS"):
        env.pop(key, None)
    for key in list(env):
        if key.startswith("NUMBA_"):
            del env[key]
    env["MCHECK_REPO"] = REPO
    env.update(
        PYTHONPATH=REPO + os.pathsep + HERE,
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED="0",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        NUMBA_NUM_THREADS="4",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="4",
        LANG="C.UTF-8",
    )
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("VERIF_TIER", "quick")
    proc = subprocess.Popen(
        [PYTHON, "-m", "mcheck.main", *sys.argv[1:]],
        cwd=scratch,
        env=env,
        start_new_session=True,
    )
    try:
        return proc.wait()
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    code = main()
    sys.exit(code if code >= 0 else 3)
