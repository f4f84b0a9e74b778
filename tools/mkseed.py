#!/usr/bin/env python3
"""Write seeded/<id>/ from a spec and confirm it.

usage: mkseed.py SPEC.py [id ...]     (SPEC.py defines SEEDS = [dict(...), ...])

Every seed is applied to a scratch copy of /repo; the demo must pass on the
unchanged copy and fail on the changed one.  Not used by any check.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''\
import os
import sys
import tempfile

_scratch = tempfile.TemporaryDirectory()
sys.dont_write_bytecode = True
sys.pycache_prefix = _scratch.name
os.environ.update(
    NUMBA_CACHE_DIR=_scratch.name, MPLCONFIGDIR=_scratch.name, MPLBACKEND="Agg"
)
sys.path.insert(0, os.getcwd())
import warnings

warnings.simplefilter("ignore")
import numpy as np
import pandas as pd

'''
SH = '''\
#!/bin/bash
# run in the root of the repository; exit 0: behaves, other: broken
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    only = sys.argv[2:]
    bad = 0
    for s in mod.SEEDS:
        if only and s["id"] not in only:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.py"), "w") as fh:
            fh.write(HEAD + s["demo"].strip("\n") + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as fh:
            fh.write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as fh:
            json.dump(
                {
                    "property": s["property"],
                    "needs": s["needs"],
                    "what_it_breaks": s["breaks"],
                },
                fh,
                indent=1,
            )
            fh.write("\n")
        with tempfile.TemporaryDirectory(prefix="pfseed-") as tmp:
            copy = os.path.join(tmp, "repo")
            shutil.copytree(os.environ.get("MCHECK_REPO", "/repo"), copy, symlinks=True)
            sh(["git", "checkout", "-q", "--", "."], cwd=copy)
            clean = sh([os.path.join(d, "demo.sh")], cwd=copy)
            for f, old, new in s["edits"]:
                p = os.path.join(copy, f)
                src = open(p).read()
                if src.count(old) != 1:
                    print(s["id"], "edit matches", src.count(old), "times:", old)
                    bad += 1
                    break
                open(p, "w").write(src.replace(old, new))
            diff = sh(["git", "diff"], cwd=copy).stdout
            with open(os.path.join(d, "patch.diff"), "w") as fh:
                fh.write(diff)
            broken = sh([os.path.join(d, "demo.sh")], cwd=copy)
        ok = clean.returncode == 0 and broken.returncode != 0 and diff
        print(
            s["id"],
            "ok" if ok else "NOT OK",
            f"clean={clean.returncode} broken={broken.returncode}",
            (broken.stderr.strip().splitlines() or [""])[-1][:150],
        )
        if clean.returncode:
            print(clean.stderr[-600:])
        bad += not ok
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
