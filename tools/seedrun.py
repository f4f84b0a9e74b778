#!/usr/bin/env python3
"""Apply seeded bugs to scratch copies of /repo; run tests, demo and checks.

usage: seedrun.py [--tests] [--check] [--all-checks] [--workers N] [id ...]

Every worker owns a copy of the repository's HEAD in a temporary directory, so
/repo itself is never touched.  Not used by any check.
"""
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MCHECK_REPO", "/repo")
BASE = os.path.join(VERIF, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(copy, work):
    """Failing stable tests of the repository in the copy."""
    env = dict(
        os.environ,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=copy,
        NUMBA_CACHE_DIR=os.path.join(work, "numba-t"),
        MPLCONFIGDIR=os.path.join(work, "mpl-t"),
        MPLBACKEND="Agg",
        NUMBA_NUM_THREADS="2",
        PYTHONHASHSEED="0",
        CI="1",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(work, "hypothesis"),
    )
    shutil.rmtree(os.path.join(work, "numba-t"), ignore_errors=True)
    xml = os.path.join(work, "junit.xml")
    if os.path.exists(xml):
        os.remove(xml)
    subprocess.run(
        ["timeout", "-k", "10", "840", "/opt/venv/bin/python", "-m", "pytest", "tests",
         "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "-n", "2",
         "-o", "junit_family=xunit2", f"--junitxml={xml}"],
        cwd=copy, env=env, capture_output=True,
    )
    if not os.path.exists(xml):
        return ["no result"]
    out = os.path.join(work, "tests.json")
    subprocess.run(["python3", "/opt/vp/results.py", out, f"junit:{xml}"], capture_output=True)
    return sorted(set(json.load(open(out))["failed"]) & STABLE)


def check(copy, work, prop, jobs=2, first=False):
    env = dict(
        os.environ, MCHECK_REPO=copy, MCHECK_EVIDENCE=os.path.join(work, "evidence"),
        VERIF_TIER="quick", MCHECK_FIRST="1" if first else "",
        MCHECK_HANG="60" if first else "240",
    )
    r = subprocess.run(
        ["timeout", "900", "python3", os.path.join(VERIF, "mc.py"), prop, "--jobs", str(jobs)],
        cwd=VERIF, env=env, capture_output=True, text=True,
    )
    why = " | ".join(x for x in r.stdout.splitlines() if x.startswith("  "))
    if r.returncode == 0:
        return "MISSED", why
    if r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout:
        return "caught", why
    return f"ERROR {r.returncode}", r.stderr[-300:]


def worker(todo, flags, props, lock):
    with tempfile.TemporaryDirectory(prefix="pfseed-") as work:
        copy = os.path.join(work, "repo")
        subprocess.run(["git", "clone", "-q", "--shared", REPO, copy], check=True)
        while True:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                return
            d = os.path.join(BASE, i)
            meta = json.load(open(os.path.join(d, "meta.json")))
            line = [i]
            subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."])
            r = subprocess.run(
                ["git", "-C", copy, "apply", os.path.join(d, "patch.diff")],
                capture_output=True, text=True,
            )
            if r.returncode:
                line.append("PATCH FAILS " + r.stderr[:100])
            else:
                if "--tests" in flags:
                    f = tests(copy, work)
                    line.append("tests pass" if not f else f"TESTS FAIL {f[:2]}")
                which = []
                if "--check" in flags:
                    which = [meta["property"]]
                if "--all-checks" in flags:
                    which = props
                for p in which:
                    res, why = check(copy, work, p)
                    if p == meta["property"] or res != "MISSED":
                        line.append(f"{p}:{res}")
                    if p == meta["property"]:
                        line.append(why[:220])
            with lock:
                print(*line, flush=True)


def main():
    args = sys.argv[1:]
    n = 4
    if "--workers" in args:
        k = args.index("--workers")
        n = int(args[k + 1])
        del args[k : k + 2]
    flags = [a for a in args if a.startswith("--")]
    ids = [a for a in args if not a.startswith("--")]
    if not ids:
        ids = sorted(os.listdir(BASE))
    else:
        ids = [i for i in sorted(os.listdir(BASE)) if any(re.match(a, i) for a in ids)]
    props = [
        c["property"]
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]
    ]
    todo = queue.Queue()
    for i in ids:
        todo.put(i)
    lock = threading.Lock()
    ths = [threading.Thread(target=worker, args=(todo, flags, props, lock)) for _ in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()


if __name__ == "__main__":
    main()
