"""C20: element-wise evaluation under every order, container and thread count."""
from __future__ import annotations

import itertools

import numba
import numpy as np
import pandas as pd
from py_fatigue.material import crack_growth_curve as cgm
from py_fatigue.material import sn_curve as snm

from mcheck.core import Rec, arr, close, must, require
from mcheck.curves import growth, intensity, life, paris, paris_from_knees, sn, sn_ordered, strength

SNS = [
    ((3.0,), (12.0,), np.inf),
    (*sn_ordered((80.0,), (3.0, 5.0), 12.0), 1e8),
    (*sn_ordered((200.0, 80.0, 20.0), (2.0, 3.0, 5.0, 7.0), 12.0), np.inf),
]
PCS = [
    ((3.0,), (1e-9,), 0.0, np.inf),
    (*paris_from_knees((40.0, 300.0), (2.0, 3.5, 3.0), 1e-9), 5.0, 900.0),
]
METHODS = ("get_cycles", "get_stress", "get_growth_rate", "get_sif")
VALUES = {
    "get_cycles": [1, 7, 20, 52, 80, 100, 333, 1000],
    "get_stress": [5, 100, 20000, 10**6, 10**7, 10**8, 3 * 10**9, 10**11],
    "get_growth_rate": [1, 5, 8, 39, 40, 120, 500, 1000],
    "get_sif": [2e-9, 1e-7, 3e-6, 1e-4, 2e-3, 0.02, 0.5, 1e3],
}
DTYPES = ("float64", "strided", "int64", "int32", "int16", "uint8", "uint16", "uint32",
          "uint64", "float32")  # fmt: skip


def subjects(method):
    if method in ("get_cycles", "get_stress"):
        return [must(sn, m, a, e) for m, a, e in SNS]
    return [must(paris, m, c, t, k) for m, c, t, k in PCS]


def state(curve):
    """Everything a curve shows to its user."""
    names = ("slope", "intercept", "endurance", "threshold", "critical", "unit", "name",
             "color", "curve", "environment", "norm", "linear")  # fmt: skip
    out = {k: getattr(curve, k) for k in names if hasattr(curve, k)}
    return {k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in out.items()}


class Serial:
    """Run the compiled kernels in Python, iterating in a chosen order."""

    def __init__(self, module):
        self.module = module
        self.order = None

    def __enter__(self):
        self.saved = {
            k: v for k, v in vars(self.module).items() if hasattr(v, "py_func")
        }
        for k, v in self.saved.items():
            setattr(self.module, k, v.py_func)
        self.prange = numba.prange
        numba.prange = self._iterate
        return self

    def _iterate(self, *a):
        r = list(range(*a))
        if self.order is not None and len(r) == len(self.order):
            return [r[i] for i in self.order]
        return r[::-1]

    def __exit__(self, *exc):
        numba.prange = self.prange
        for k, v in self.saved.items():
            setattr(self.module, k, v)


class Check:
    ID = "C20"
    ASSUMPTIONS = [
        "loop iterations are explored in every order in the interpreter; inside the"
        " compiled kernels the library's threads are exercised with 1 to 4 workers",
        "single precision and 8- or 16-bit integer input is compared with single precision"
        " evaluation",
        "arrays hold at least one element",
    ]
    MIN_OUTCOMES = {"array": 1000, "threads": 100, "order": 500, "container": 50}

    def bound(self, tier):
        n = 6 if tier == "quick" else 7
        return (
            f"4 evaluations x all their curves: every arrangement of up to {n - 2} of 8"
            f" values, all {n}! iteration orders of the parallel loop, lengths 1-70 and"
            " up to 70001 with 1-4 threads, 10 element types, 6 containers and scalars"
        )

    def tasks(self, tier):
        for method in METHODS:
            for d in DTYPES:
                yield ("types", method, d)
            yield ("arrangements", method, 4 if tier == "quick" else 5)
            yield ("threads", method)
            yield ("orders", method, 6 if tier == "quick" else 7)
            yield ("containers", method)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    @staticmethod
    def model(method, k, x):
        if method == "get_cycles":
            return life(x, *SNS[k])
        if method == "get_stress":
            return strength(x, *SNS[k])
        if method == "get_growth_rate":
            return growth(x, *PCS[k])
        return intensity(x, *PCS[k])

    @staticmethod
    def convert(vals, dtype):
        if dtype == "strided":
            buf = np.zeros(2 * len(vals) + 1)
            buf[1::2] = vals
            return buf[1::2]
        return np.array(vals, dtype=dtype)

    def types(self, rec, method, dtype):
        vals = VALUES[method]
        whole = dtype != "strided" and np.dtype(dtype).kind in "iu"
        if whole:
            vals = [1, 2, 5, 1000] if method == "get_sif" else vals
            vals = [v for v in vals if v <= np.iinfo(dtype).max]
        # small integers are evaluated in single precision too
        rtol = 1e-9 if dtype == "strided" or np.dtype(dtype).itemsize > (2 if whole else 4) else 2e-5
        for k, c in enumerate(subjects(method)):
            f = getattr(c, method)
            single = [float(arr(must(f, self.convert([v], dtype)))[0]) for v in vals]
            with rec.case(method, dtype, k):
                # near-knee values may fall on either side in single precision
                close("single values", single, self.model(method, k, vals), rtol=rtol)
            for n in range(1, len(vals) + 1):
                for idx in itertools.permutations(range(len(vals)), min(n, 2)):
                    order = list(idx) + [j for j in range(len(vals)) if j not in idx]
                    order = order[:n]
                    x = self.convert([vals[j] for j in order], dtype)
                    keep = x.copy()
                    before = state(c)
                    with rec.case(method, dtype, k, order):
                        got = must(f, x)
                        close("array", got, [single[j] for j in order], rtol=1e-12)
                        require("input altered", np.array_equal(x, keep))
                        require("curve altered", state(c) == before)
                        rec.state((method, dtype, k, tuple(order)))
                        rec.step()
                        rec.trace()
                        rec.outcome("array")

    def arrangements(self, rec, method, n):
        numba.set_num_threads(2)
        vals = VALUES[method]
        for k, c in enumerate(subjects(method)):
            f = getattr(c, method)
            single = [float(must(f, v)) for v in vals]
            for size in range(1, n + 1):
                for idx in itertools.product(range(0, len(vals), 1 if size < n else 2), repeat=size):
                    with rec.case(method, k, idx):
                        got = must(f, np.array([float(vals[j]) for j in idx]))
                        close("array", got, [single[j] for j in idx], rtol=1e-12)
                        rec.state((method, k, idx))
                        rec.step()
                        rec.trace()
                        rec.outcome("array")

    def threads(self, rec, method):
        vals = VALUES[method]
        for k, c in enumerate(subjects(method)):
            f = getattr(c, method)
            single = [float(must(f, v)) for v in vals]
            for n in list(range(1, 71)) + [1000, 4097, 12345, 70001]:
                idx = [(j * j + j // 3) % len(vals) for j in range(n)]
                x = np.array([float(vals[j]) for j in idx])
                ref = [single[j] for j in idx]
                for th in range(1, numba.config.NUMBA_NUM_THREADS + 1):
                    numba.set_num_threads(th)
                    with rec.case(method, k, n, th):
                        close("threads", must(f, x), ref, rtol=1e-12)
                        rec.state((method, k, n, th))
                        rec.step()
                        rec.trace()
                        rec.outcome("threads")

    def orders(self, rec, method, n):
        """Every order in which the parallel loop may process its elements."""
        module = snm if method in ("get_cycles", "get_stress") else cgm
        cs = subjects(method)
        vals = np.array([float(v) for v in VALUES[method][8 - n :]])
        with Serial(module) as serial:
            for k, c in enumerate(cs):
                f = getattr(c, method)
                exp = self.model(method, k, vals)
                for perm in itertools.permutations(range(n)):
                    serial.order = perm
                    with rec.case(method, k, perm):
                        close("processing order", must(f, vals), exp)
                        rec.state((method, k, perm))
                        rec.step(n)
                        rec.trace()
                        rec.outcome("order")

    def containers(self, rec, method):
        vals = [float(v) for v in VALUES[method]]
        for k, c in enumerate(subjects(method)):
            f = getattr(c, method)
            exp = self.model(method, k, vals)
            boxes = {
                "list": list(vals), "tuple": tuple(vals), "array": np.array(vals),
                "series": pd.Series(vals), "indexed": pd.Series(vals, index=range(7, 15)),
                "column": pd.DataFrame({"a": vals})["a"],
                "readonly": np.array(vals),
            }  # fmt: skip
            boxes["readonly"].setflags(write=False)
            for name, x in boxes.items():
                with rec.case(method, k, name):
                    close("container", arr(must(f, x)), exp)
                    require("input altered", list(x) == vals)
                    rec.state((method, k, name))
                    rec.step()
                    rec.trace()
                    rec.outcome("container")
            mixed = [int(np.ceil(v)) if j % 2 == 0 else v + 0.25 for j, v in enumerate(vals)]
            for x in (mixed, tuple(mixed), mixed[::-1], [True] + mixed[1:]):
                with rec.case(method, k, "mixed", x):
                    exp2 = self.model(method, k, [float(v) for v in x])
                    close("whole and fractional values", arr(must(f, x)), exp2)
                    rec.state((method, k, "mixed", tuple(x)))
                    rec.step()
                    rec.trace()
                    rec.outcome("container")
            for j, v in enumerate(vals):
                with rec.case(method, k, v):
                    for s in (v, np.float64(v)) + ((int(v),) if v == int(v) else ()):
                        got = must(f, s)
                        require("scalar in, scalar out", np.ndim(got) == 0)
                        close("scalar", got, exp[j])
                        rec.step()
                        rec.trace()


CHECK = Check()
