#!/usr/bin/env python3
"""Refresh the tables of DESIGN.md from the check modules, evidence and a seed log.

usage: design.py [SEEDLOG]   (SEEDLOG: output of seedrun.py --all-checks)
"""
import glob
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = """
import importlib, json, os, sys
out = {}
for f in sorted(os.listdir(sys.argv[1] + "/mcheck")):
    if f[0] == "c" and f[1:3].isdigit():
        c = importlib.import_module("mcheck." + f[:-3]).CHECK
        out[c.ID] = (c.bound("quick"), list(getattr(c, "ASSUMPTIONS", [])))
print("JSON" + json.dumps(out))
"""


def between(text, name, new):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + new + text[j:]


def bounds():
    env = dict(os.environ, PYTHONPATH=f"/repo:{VERIF}", NUMBA_DISABLE_JIT="1", MPLBACKEND="Agg")
    r = subprocess.run(
        ["/opt/venv/bin/python", "-B", "-c", CODE, VERIF],
        env=env, capture_output=True, text=True, check=True,
    )  # fmt: skip
    info = json.loads(r.stdout.split("JSON", 1)[1])
    rows = []
    for p, (bound, assume) in info.items():
        path = os.path.join(VERIF, "evidence", p + ".json")
        cost = ""
        if os.path.exists(path):
            d = json.load(open(path))
            c = d["coverage"]
            if d["tier"] == "quick":
                cost = (
                    f" ({c['states']} states, {c['transitions']} transitions,"
                    f" {c['traces_validated_against_impl']} traces,"
                    f" about {max(1, round(d['wall_s']))} s on 8 cores)"
                )
        rows.append(f"* **{p}**: {bound}{cost}.")
        for a in assume:
            rows.append(f"  * assumes: {a}")
    return "\n".join(rows) + "\n"


def seeds(log):
    res = {}
    for line in open(log):
        m = re.match(r"(C\d\d-\S+) (.*)", line)
        if m:
            res[m[1]] = (
                re.findall(r"(C\d\d):caught", m[2]),
                re.findall(r"(C\d\d):MISSED", m[2]),
            )
    rows = ["| seed | what it breaks | caught by |", "|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*"))):
        i = os.path.basename(d)
        meta = json.load(open(os.path.join(d, "meta.json")))
        got = " ".join(res[i][0]) or "-" if i in res else "?"
        miss = " (missed by its own check)" if i in res and meta["property"] in res[i][1] else ""
        rows.append(f"| {i} | {meta['what_it_breaks']} | {got}{miss} |")
    return "\n".join(rows) + "\n"


def main():
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    text = between(text, "bounds", bounds())
    if len(sys.argv) > 1:
        text = between(text, "seeds", seeds(sys.argv[1]))
    open(path, "w").write(text)


if __name__ == "__main__":
    main()
