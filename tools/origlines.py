#!/usr/bin/env python3
"""Report seeded bugs that change lines not present in the original repository."""
import collections
import glob
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MCHECK_REPO", "/repo")
BASE = sys.argv[1] if len(sys.argv) > 1 else "eff85b5"


def git(*a):
    return subprocess.run(["git", "-C", REPO, *a], capture_output=True, text=True, check=True).stdout


def blame(path):
    """Line numbers of HEAD that come from later commits than the base."""
    new = set()
    out = git("diff", "-U0", BASE, "HEAD", "--", path)
    for m in re.finditer(r"^@@ -\S+ \+(\d+)(?:,(\d+))? @@", out, re.M):
        a, n = int(m[1]), int(m[2] or 1)
        new |= set(range(a, a + n))
    return new


cache = collections.defaultdict(lambda: None)
for p in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "patch.diff"))):
    path, no, hits = None, 0, []
    for line in open(p):
        if line.startswith("--- a/"):
            path = line[6:].strip()
            if cache[path] is None:
                cache[path] = blame(path)
        m = re.match(r"@@ -(\d+)", line)
        if m:
            no = int(m[1]) - 1
            continue
        if path is None or line.startswith(("+++", "---", "diff", "index")):
            continue
        if line[0] in "- ":
            no += 1
        if line[0] == "-" and no in cache[path]:
            hits.append((no, line.rstrip()))
    if hits:
        print(os.path.basename(os.path.dirname(p)), hits)
