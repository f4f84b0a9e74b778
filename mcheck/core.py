"""Exploration kernel: task queue, worker processes, counters, comparison."""
from __future__ import annotations

import contextlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
from typing import Any, Callable, Iterable

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("MCHECK_EVIDENCE", os.path.join(HERE, "evidence"))
REPO = os.environ.get("MCHECK_REPO", "/repo")
KNOWN = os.path.join(HERE, "known_findings.txt")

MAX_FAILS_PER_TASK = 3
HANG_S = float(os.environ.get("MCHECK_HANG", "240"))
FIRST = bool(os.environ.get("MCHECK_FIRST"))  # stop at the first disagreement

# the library pauses for progress bars; the pause is not part of any property
time.sleep_ = time.sleep  # type: ignore[attr-defined]
time.sleep = lambda *_: None


# --------------------------------------------------------------------------
# comparison helpers
# --------------------------------------------------------------------------
class Mismatch(Exception):
    """The implementation disagrees with the model."""


class Raised:
    """An exception raised by the code under test."""

    def __init__(self, exc: BaseException):
        self.exc = exc

    def __repr__(self) -> str:
        return f"{type(self.exc).__name__}({str(self.exc)[:200]})"


def call(fn: Callable, *args: Any, **kwargs: Any) -> Any:
    """Run the code under test; exceptions become values."""
    try:
        return fn(*args, **kwargs)
    except Exception as exc:  # noqa: BLE001
        return Raised(exc)


def must(fn: Callable, *args: Any, **kwargs: Any) -> Any:
    """Run the code under test where the model says it must succeed."""
    res = call(fn, *args, **kwargs)
    if isinstance(res, Raised):
        tb = traceback.extract_tb(res.exc.__traceback__)
        where = next(
            (
                f"{os.path.basename(f.filename)}:{f.lineno}"
                for f in reversed(tb)
                if "py_fatigue" in f.filename
            ),
            "?",
        )
        raise Mismatch(f"unexpected {res!r} at {where}")
    return res


def rejects(
    what: str, fn: Callable, *args: Any, kinds: Any = Exception, **kwargs: Any
) -> None:
    """The model says the code under test must refuse this input."""
    res = call(fn, *args, **kwargs)
    if not isinstance(res, Raised):
        raise Mismatch(f"{what}: accepted, expected an error; got {short(res)}")
    if not isinstance(res.exc, kinds):
        raise Mismatch(f"{what}: expected {kinds}, got {res!r}")


def short(x: Any, n: int = 300) -> str:
    s = " ".join(repr(x).split())
    return s if len(s) <= n else s[: n - 3] + "..."


def arr(x: Any) -> np.ndarray:
    return np.asarray(x, dtype=float)


def close(
    what: str, got: Any, exp: Any, rtol: float = 1e-9, atol: float | None = None
) -> None:
    """Numeric agreement incl. shape; inf must match inf, nan nan.

    Unless given, the absolute allowance is 1e-12 or, if the expected values
    are smaller than one, 1e-12 of the largest.
    """
    try:
        g, e = arr(got), arr(exp)
    except (TypeError, ValueError) as exc:
        raise Mismatch(f"{what}: not numeric: {short(got)} ({exc})") from exc
    if g.shape != e.shape:
        raise Mismatch(
            f"{what}: shape {g.shape} != expected {e.shape}: "
            f"{short(got)} vs {short(exp)}"
        )
    if g.size == 0:
        return
    if atol is None:
        fin = np.abs(e[np.isfinite(e)])
        atol = 1e-12 * min(1.0, float(fin.max()) if fin.size and fin.any() else 1.0)
    if g.size <= 8:
        for a, b in zip(g.ravel().tolist(), e.ravel().tolist()):
            if a == b:
                continue
            if abs(a - b) <= atol + rtol * abs(b):
                if math.isinf(a) or math.isinf(b):
                    break
                continue
            if a != a and b != b:
                continue
            break
        else:
            return
        raise Mismatch(f"{what}: {short(got)} != expected {short(exp)}")
    with np.errstate(all="ignore"):
        ok = np.isclose(g, e, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = np.argwhere(~ok)[0]
        raise Mismatch(
            f"{what}: at {i.tolist()}: {g[tuple(i)]!r} != expected "
            f"{e[tuple(i)]!r}; {short(got, 160)} vs {short(exp, 160)}"
        )


def same(what: str, got: Any, exp: Any) -> None:
    if isinstance(got, np.ndarray) or isinstance(exp, np.ndarray):
        raise Mismatch(f"{what}: array where scalar expected: {short(got)}")
    try:
        ok = bool(got == exp)
    except Exception as exc:  # noqa: BLE001
        raise Mismatch(f"{what}: comparison failed: {exc}") from exc
    if not ok:
        raise Mismatch(f"{what}: {short(got)} != expected {short(exp)}")


def require(what: str, cond: Any) -> None:
    if not bool(cond):
        raise Mismatch(what)


# --------------------------------------------------------------------------
# recorder used inside workers
# --------------------------------------------------------------------------
class Rec:
    """Counts what a task explored and collects disagreements."""

    def __init__(self, task: list, beat: Any = None, known: Any = ()):
        self.task = task
        self.beat = beat
        self.known = known
        self._states: set[int] = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.skipped = 0
        self.outcomes: dict[str, int] = {}
        self.fails: list[dict] = []
        self.nfails = 0
        self.known_hits: dict[str, int] = {}
        self.samples: list = []
        self.case_repr: Any = None

    # -- model bookkeeping
    def state(self, key: Any) -> None:
        self._states.add(hash(key))

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def trace(self, n: int = 1) -> None:
        self.traces += n

    def outcome(self, key: Any) -> None:
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    # -- one behaviour
    @contextlib.contextmanager
    def case(self, *desc: Any, known: str | None = None):
        """All comparisons of one enumerated behaviour.

        `known` names the call site/input class of a listed known finding this
        behaviour belongs to; a disagreement is then reported as such.
        """
        self.cases += 1
        if self.beat is not None:
            self.beat.value = time.monotonic()
        if len(self.samples) < 2:
            self.samples.append(short(desc, 400))
        try:
            yield
        except Exception as exc:  # noqa: BLE001
            if isinstance(exc, Mismatch):
                msg = str(exc)
            else:
                tb = traceback.extract_tb(exc.__traceback__)[-1]
                msg = (
                    f"{type(exc).__name__}: {exc} at "
                    f"{os.path.basename(tb.filename)}:{tb.lineno}"
                )
            if known is not None and known in self.known:
                self.known_hits[known] = self.known_hits.get(known, 0) + 1
                return
            self.nfails += 1
            if len(self.fails) < MAX_FAILS_PER_TASK:
                self.fails.append(
                    {
                        "task": self.task,
                        "case": short(desc, 2000),
                        "message": msg[:2000],
                    }
                )
            if self.nfails >= 50:
                raise StopTask from exc


class StopTask(Exception):
    """Enough disagreements seen in this task."""


def _from_code_under_test(exc: BaseException) -> bool:
    if isinstance(exc, Mismatch):
        return True
    return isinstance(exc, Exception) and any(
        f.filename.startswith(REPO + "/")
        for f in traceback.extract_tb(exc.__traceback__)
    )


def _worker(check, tasks, queue_in, queue_out, beat, known):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    while True:
        i = queue_in.get()
        if i is None:
            break
        beat.value = time.monotonic()
        rec = Rec(tasks[i], beat, known)
        err = None
        t0 = time.monotonic()
        try:
            check.run(rec, *tasks[i])
        except StopTask:
            pass
        except BaseException as exc:  # noqa: BLE001
            if _from_code_under_test(exc):
                # the library failed while a behaviour was being set up
                rec.nfails += 1
                rec.fails.append(
                    {
                        "task": rec.task,
                        "case": "setting up the task",
                        "message": f"{type(exc).__name__}: {exc}"[:2000],
                    }
                )
            else:
                err = traceback.format_exc()
        queue_out.put(
            {
                "i": i,
                "states": np.fromiter(rec._states, dtype=np.int64),
                "transitions": rec.transitions,
                "traces": rec.traces,
                "cases": rec.cases,
                "skipped": rec.skipped,
                "outcomes": rec.outcomes,
                "fails": rec.fails,
                "nfails": rec.nfails,
                "known": rec.known_hits,
                "samples": rec.samples,
                "err": err,
                "dt": time.monotonic() - t0,
            }
        )
    queue_out.put(None)


def load_known(prop: str) -> dict[str, str]:
    """Open findings for a property: `open: property=ID key=KEY text`."""
    out: dict[str, str] = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN, encoding="utf-8") as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith("open: "):
                continue
            parts = line.split(None, 3)
            if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


def explore(check, tier: str, seed: int, jobs: int) -> int:
    """Run every task of a check; write evidence; return the exit code."""
    t0 = time.monotonic()
    prop = check.ID
    tasks = [list(t) for t in check.tasks(tier)]
    order = list(range(len(tasks)))
    if order:
        r = seed % len(order)
        order = order[r:] + order[:r]
    known = load_known(prop)
    ctx = mp.get_context("fork")
    qi = ctx.SimpleQueue()
    qo = ctx.Queue()
    jobs = max(1, min(jobs, len(tasks)))
    for i in order:
        qi.put(i)
    for _ in range(jobs):
        qi.put(None)
    workers, beats = [], []
    for _ in range(jobs):
        beat = ctx.Value("d", time.monotonic())
        w = ctx.Process(
            target=_worker, args=(check, tasks, qi, qo, beat, tuple(known))
        )
        w.daemon = True
        w.start()
        workers.append(w)
        beats.append(beat)
    done, results, hung, crashed = 0, {}, [], []
    while done < jobs:
        try:
            msg = qo.get(timeout=1.0)
        except Exception:  # queue.Empty
            msg = False
        if msg is None:
            done += 1
            continue
        if msg:
            results[msg["i"]] = msg
            if FIRST and msg["nfails"]:
                for w in workers:
                    if w is not None:
                        w.kill()
                break
            continue
        now = time.monotonic()
        for k, (w, b) in enumerate(zip(workers, beats)):
            if w is None:
                continue
            if not w.is_alive():
                if w.exitcode != 0:
                    crashed.append(w.exitcode)
                    done += 1
                workers[k] = None
            elif now - b.value > HANG_S:
                w.kill()
                hung.append(k)
                done += 1
                workers[k] = None
    missing = [i for i in order if i not in results]
    fails, errs, outcomes, samples, khits = [], [], {}, [], {}
    tot = dict(transitions=0, traces=0, cases=0, skipped=0, nfails=0)
    states = []
    for i in sorted(results):
        r = results[i]
        for k in tot:
            tot[k] += r[k]
        states.append(r["states"])
        fails += r["fails"]
        if r["err"]:
            errs.append((tasks[i], r["err"]))
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r["known"].items():
            khits[k] = khits.get(k, 0) + v
        samples += r["samples"][:1]
    nstates = int(np.unique(np.concatenate(states)).size) if states else 0
    if hung:
        fails.append(
            {
                "task": [tasks[i] for i in missing],
                "case": "non-termination",
                "message": f"no progress for {HANG_S:.0f} s in one case",
            }
        )
        tot["nfails"] += 1
    if crashed and missing:
        fails.append(
            {
                "task": [tasks[i] for i in missing],
                "case": "crash",
                "message": f"interpreter died with {crashed}",
            }
        )
        tot["nfails"] += 1
    if "-v" in sys.argv:
        for t, e in errs[:3]:
            print(f"error in task {short(t)}:\n{e}")
        for i in sorted(results, key=lambda i: -results[i]["dt"])[:12]:
            print(f"  {results[i]['dt']:.1f}s {results[i]['cases']} {short(tasks[i],120)}")
        print("  outcomes", dict(sorted(outcomes.items())))
    wall = time.monotonic() - t0
    low = getattr(check, "MIN_OUTCOMES", {})
    vac = [k for k in low if outcomes.get(k, 0) < low[k]]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": nstates,
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "behaviours_enumerated": tot["cases"],
            "skipped_near_discontinuity": tot["skipped"],
            "outcomes": dict(sorted(outcomes.items())[:60]),
            "samples": samples[:6],
            "exhaustive": not missing and tot["nfails"] == 0 and not errs,
            "bound": check.bound(tier),
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": tot["nfails"],
        "known_findings_hit": khits,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k in sorted(khits):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    if fails:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, f in enumerate(fails[:5]):
            path = os.path.join(rdir, f"{prop}-{n}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "tier": tier, **f}, fh, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  case {f['case'][:600]}")
            print(f"  {f['message'][:600]}")
        print(f"{prop}: {tot['nfails']} disagreements in {tot['cases']} behaviours")
        return 1
    if errs:
        for t, e in errs[:3]:
            print(f"check error in task {short(t)}:\n{e}", file=sys.stderr)
        return 2
    if missing:
        print(f"check error: {len(missing)} tasks not finished", file=sys.stderr)
        return 2
    if vac:
        print(f"check error: vacuous exploration, too few of {vac}", file=sys.stderr)
        return 2
    print(
        f"{prop}: held on {tot['cases']} behaviours, {nstates} states, "
        f"{tot['transitions']} transitions, {tot['traces']} conformance "
        f"traces, {wall:.1f} s"
    )
    return 0


def replay(check, path: str) -> int:
    """Re-run the task of a stored violation and show its disagreements."""
    with open(path) as fh:
        stored = json.load(fh)
    task = stored["task"]
    if stored["case"] in ("non-termination", "crash"):
        print(f"stored {stored['case']} in one of the tasks {task}")
        return 1
    rec = Rec(task, None, tuple(load_known(check.ID)))
    devnull = open(os.devnull, "w")
    with contextlib.redirect_stdout(devnull), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            check.run(rec, *task)
        except StopTask:
            pass
        except Exception as exc:  # noqa: BLE001
            if not _from_code_under_test(exc):
                raise
            rec.fails.append({"case": "setting up the task", "message": repr(exc)})
    for f in rec.fails:
        print(f"VIOLATION property={check.ID} replay={path}")
        print(f"  case {f['case']}\n  {f['message']}")
    if not rec.fails:
        print("no disagreement on replay")
    return 1 if rec.fails else 0


def chunks(it: Iterable, n: int) -> list[list]:
    """Split a list into n interleaved parts (balanced work)."""
    items = list(it)
    return [items[i::n] for i in range(n) if items[i::n]]
