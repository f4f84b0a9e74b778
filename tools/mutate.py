#!/usr/bin/env python3
"""Systematic source mutations of py_fatigue: which ones do the checks miss?

usage: mutate.py OUT.jsonl [--workers N] [--files REGEX] [--every K] [--list] [--no-tests]

Every mutation changes one place of one source file in a scratch copy of /repo.
The checks that concern the file are run until one reports a violation; for
mutations no check reports, the repository's own tests are run.  The result of
every mutation is appended to OUT.jsonl.  Not used by any check.
"""
import ast
import json
import os
import queue
import re
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seedrun  # noqa: E402

MAP = {
    "cycle_count/rainflow.py": "C01 C22 C02",
    "cycle_count/cycle_count.py": "C04 C06 C05 C27 C09 C08 C15 C19 C21 C07 C03 C13",
    "cycle_count/histogram.py": "C07 C08",
    "cycle_count/utils.py": "C19 C13",
    "testing.py": "C28",
    "version.py": "C28",
    "utils.py": "C28 C07 C09 C21 C08 C19 C16",
    "stress_range/stress_range.py": "C09 C07",
    "mean_stress/mean_stress.py": "C09 C07",
    "mean_stress/corrections.py": "C15",
    "material/sn_curve.py": "C10 C11 C21 C20 C13",
    "material/crack_growth_curve.py": "C12 C21 C20 C16",
    "damage/stress_life.py": "C13 C14 C27",
    "damage/crack_growth.py": "C16 C17",
    "geometry/cylinder.py": "C18 C16",
    "geometry/generic.py": "C18 C16",
}
# the checks to try first for functions of the larger modules
FUNCS = [
    ("cycle_count/cycle_count.py", r"repr|__str__", "C26"),
    ("material/sn_curve.py", r"repr|__str__|format", "C26"),
    ("material/crack_growth_curve.py", r"repr|__str__|format", "C26"),
    ("geometry/cylinder.py", r"repr|__str__", "C26"),
    ("geometry/generic.py", r"repr|__str__", "C26"),
    ("damage/crack_growth.py", r"repr|__str__", "C26"),
    ("cycle_count/cycle_count.py", r"plot", "C24"),
    ("cycle_count/cycle_count.py", r"json", "C08 C07"),
    ("cycle_count/cycle_count.py", r"as_dict", "C07 C08 C06"),
    ("cycle_count/cycle_count.py", r"__eq__", "C21"),
    ("cycle_count/cycle_count.py", r"lffd|resolve", "C03 C25 C27 C06 C05"),
    ("cycle_count/cycle_count.py", r"__r?mul|scalar", "C05 C06 C27"),
    ("cycle_count/cycle_count.py", r"__r?add|_add_|sum", "C04 C27 C19 C06 C15 C25"),
    ("cycle_count/cycle_count.py", r"mean_stress_correction", "C15 C27 C06"),
    ("cycle_count/cycle_count.py", r"from_timeseries|from_rainflow", "C09 C08 C01"),
    ("cycle_count/cycle_count.py", r"post_init|bin_|cycles|residuals", "C09 C07 C04"),
    ("cycle_count/histogram.py", r"make_hist|map_hist|xy_hist", "C23"),
    ("cycle_count/utils.py", r"plot", "C24"),
    ("utils.py", r"make_axes", "C24 C23"),
    ("utils.py", r"FatigueStress|bin", "C07 C09 C08"),
    ("utils.py", r"compare", "C21"),
    ("material/sn_curve.py", r"plot|data_points|couple", "C24 C10"),
    ("material/crack_growth_curve.py", r"plot|data_points", "C24"),
    ("geometry/cylinder.py", r"plot", "C24"),
    ("damage/stress_life.py", r"plot", "C24"),
]
JOBS = 1
NO_TESTS = "--no-tests" in sys.argv
SKIP = re.compile(r"style|_set_color|help|rainbow|progress")


def plan(m):
    for f, func, checks in FUNCS:
        if f == m["file"] and re.search(func, m["func"]):
            return checks.split()
    return MAP[m["file"]].split()

CMP = {
    ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="],
    ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
    ast.In: ["not in"], ast.NotIn: ["in"],
}  # fmt: skip
BIN = {
    ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/",
    ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&",
}  # fmt: skip
SWAP = {
    "min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any",
    "hstack": "", "append": "", "extend": "append", "abs": "", "deepcopy": "copy",
    "sum": "max", "argmin": "argmax", "cumsum": "cumprod",
}  # fmt: skip


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src.encode()
        self.starts = [0]
        for line in src.encode().splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))
        self.out = []
        self.func = []

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b].decode()

    def add(self, a, b, new, kind, n):
        if self.src[a:b].decode() != new:
            self.out.append((a, b, new, kind, n.lineno, ".".join(self.func)))

    def visit_FunctionDef(self, n):
        if SKIP.search(n.name):
            return
        self.func.append(n.name)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.func.pop()

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.func.pop()

    def visit_JoinedStr(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Raise(self, n):
        a, b = self.span(n)
        self.add(a, b, "pass", "drop raise", n)

    def visit_Assert(self, n):
        a, b = self.span(n)
        self.add(a, b, "pass", "drop assert", n)
        self.visit(n.test)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            f = self.text(n.value.func)
            if re.search(r"warn|print|set_description|sleep|update|formatwarning", f):
                return
            a, b = self.span(n)
            self.add(a, b, "pass", "drop call", n)
        self.generic_visit(n)

    def visit_Assign(self, n):
        t = self.text(n.targets[0])
        if re.search(r"_msg|formatwarning|^_metadata", t):
            return
        if self.func and re.search(r"[\[.]", t):
            a, b = self.span(n)
            self.add(a, b, "pass", "drop assignment", n)
        self.visit(n.value)
        for x in n.targets:
            if isinstance(x, ast.Subscript):
                self.visit(x)

    def visit_AugAssign(self, n):
        a, b = self.span(n)
        self.add(a, b, "pass", "drop augmented", n)
        self.generic_visit(n)

    def visit_Compare(self, n):
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            a, b = self.span(left)[1], self.span(right)[0]
            for s in CMP.get(type(op), []):
                self.add(a, b, f" {s} ", "comparison", n)
            left = right
        self.generic_visit(n)

    def visit_BinOp(self, n):
        s = BIN.get(type(n.op))
        a, b = self.span(n.left)[1], self.span(n.right)[0]
        mid = self.src[a:b].decode()
        if s and "(" not in mid and ")" not in mid and "\n" not in mid.strip(" "):
            self.add(a, b, f" {s} ", "operator", n)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        a, b = self.span(n)
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(a, b, self.text(n.operand), "unary", n)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        new = "or" if isinstance(n.op, ast.And) else "and"
        for x, y in zip(n.values, n.values[1:]):
            a, b = self.span(x)[1], self.span(y)[0]
            mid = self.src[a:b].decode()
            self.add(a, b, re.sub(r"\b(and|or)\b", new, mid), "boolean", n)
        for x in n.values:
            self.visit(x)

    def visit_If(self, n):
        if "__name__" in self.text(n.test) or "debug" in self.text(n.test):
            return
        a, b = self.span(n.test)
        self.add(a, b, "True", "condition", n)
        self.add(a, b, "False", "condition", n)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        a, b = self.span(n)
        self.add(a, b, f"({self.text(n.body)})", "conditional", n)
        self.add(a, b, f"({self.text(n.orelse)})", "conditional", n)
        self.generic_visit(n)

    def visit_Constant(self, n):
        if not self.func:
            return
        a, b = self.span(n)
        v = n.value
        if v is True or v is False:
            self.add(a, b, str(not v), "constant", n)
        elif isinstance(v, int):
            self.add(a, b, f"({v + 1})", "constant", n)
            self.add(a, b, f"({v - 1})", "constant", n)
        elif isinstance(v, float):
            self.add(a, b, f"({v * 2 if v else 1.0})", "constant", n)

    def visit_Call(self, n):
        f = self.text(n.func)
        if re.search(r"warn|print|Exception|Error|colored", f):
            return
        name = f.split(".")[-1]
        if name in SWAP and SWAP[name]:
            a, b = self.span(n.func)
            self.add(a, b, f[: len(f) - len(name)] + SWAP[name], "function", n)
        if name in ("abs", "round", "sorted", "deepcopy", "unique") and n.args:
            a, b = self.span(n)
            self.add(a, b, f"({self.text(n.args[0])})", "unwrapped", n)
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1:
                a = self.pos(k.value.lineno, k.value.col_offset)
                # drop "name=value,"
                s = self.src
                a0 = s.rfind(k.arg.encode(), 0, a)
                b0 = self.span(k.value)[1]
                m = re.match(rb"\s*,", s[b0:])
                if m:
                    b0 += m.end()
                    self.add(a0, b0, "", f"drop keyword {k.arg}", k.value)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_Continue(self, n):
        a, b = self.span(n)
        self.add(a, b, "pass", "drop continue", n)

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)


def mutants(files, every):
    k = 0
    for f in MAP:
        if not re.search(files, f):
            continue
        path = os.path.join(seedrun.REPO, "py_fatigue", f)
        src = open(path).read()
        fi = Finder(src)
        fi.visit(ast.parse(src))
        for a, b, new, kind, line, func in fi.out:
            cand = src.encode()[:a] + new.encode() + src.encode()[b:]
            try:
                compile(cand, f, "exec")
            except SyntaxError:
                continue
            k += 1
            if k % every:
                continue
            old = src.encode()[a:b].decode()
            yield {"file": f, "line": line, "func": func, "kind": kind,
                   "old": old[:200], "new": new[:200], "_src": cand}  # fmt: skip


def one(m, copy, work, props):
    p = os.path.join(copy, "py_fatigue", m["file"])
    orig = open(p, "rb").read()
    try:
        open(p, "wb").write(m["_src"])
        for c in plan(m):
            if c not in props:
                continue
            res, why = seedrun.check(copy, work, c, jobs=JOBS, first=True)
            if res == "caught":
                return f"caught {c}", why[:200]
            if res != "MISSED":
                return f"{c} {res}", why[-300:]
        f = [] if NO_TESTS else seedrun.tests(copy, work)
        return ("tests", f[:1]) if f else ("SURVIVED", "")
    finally:
        open(p, "wb").write(orig)


def main():
    args = sys.argv[1:]
    n, files, every = 8, ".", 1
    for flag in ("--workers", "--files", "--every"):
        if flag in args:
            k = args.index(flag)
            v = args[k + 1]
            del args[k : k + 2]
            if flag == "--workers":
                n = int(v)
            elif flag == "--files":
                files = v
            else:
                every = int(v)
    ms = list(mutants(files, every))
    if "--list" in args:
        print(len(ms))
        for m in ms:
            print(m["file"], m["line"], m["func"], m["kind"], repr(m["old"]), "->", repr(m["new"]))
        return
    out = args[0]
    done = set()
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            done.add((d["file"], d["line"], d["kind"], d["old"], d["new"]))
    props = [
        c["property"]
        for c in json.load(open(os.path.join(HERE, "..", "MANIFEST.json")))["checks"]
    ]
    todo = queue.Queue()
    for m in ms:
        if (m["file"], m["line"], m["kind"], m["old"], m["new"]) not in done:
            todo.put(m)
    lock = threading.Lock()

    def work_():
        with tempfile.TemporaryDirectory(prefix="pfmut-") as work:
            copy = os.path.join(work, "repo")
            subprocess.run(["git", "clone", "-q", "--shared", seedrun.REPO, copy], check=True)
            while True:
                try:
                    m = todo.get_nowait()
                except queue.Empty:
                    return
                res, why = one(m, copy, work, props)
                rec = {k: v for k, v in m.items() if k != "_src"} | {"result": res, "why": why}
                with lock, open(out, "a") as fh:
                    fh.write(json.dumps(rec) + "\n")

    ths = [threading.Thread(target=work_) for _ in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()


if __name__ == "__main__":
    main()
