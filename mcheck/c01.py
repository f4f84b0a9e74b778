"""C01: rainflow counting == ASTM E1049 stack machine, for every signal."""
from __future__ import annotations

import itertools

import numpy as np
from py_fatigue import CycleCount
from py_fatigue.cycle_count.rainflow import rainflow

from mcheck.core import Mismatch, Rec, arr, close, must, rejects, require
from mcheck.model import astm, de_bruijn, table, words

SIDON = [0.0, 1.0, 4.0, 9.0, 15.0, 22.0, 32.0, 34.0]  # distinct differences


def check_rows(rows, expected) -> None:
    """Compare [amplitude, mean, weight, ...] rows with (range, mean, weight)."""
    got = arr(rows)
    if got.ndim != 2 or got.shape[1] < 3:
        raise Mismatch(f"cycle table has shape {got.shape}")
    if len(got) != len(expected):
        raise Mismatch(
            f"{len(got)} cycles instead of {len(expected)}: "
            f"{got[:, :3].tolist()} vs (range, mean, weight) {expected}"
        )
    if expected:
        exp = np.array(expected)
        exp[:, 0] /= 2
        close("cycles (amplitude, mean, weight)", got[:, :3], exp)


def check_signal(rec: Rec, data, ref=None, full=True) -> None:
    """`data` is what the code gets, `ref` the same signal as plain numbers."""
    ref = list(data) if ref is None else list(ref)
    cycles, residuals, stack = astm(ref)
    expected = table(cycles)
    rec.state((tuple(stack), len(ref), len(cycles)))
    rec.step(len(ref))
    before = np.array(data, copy=True)
    out = must(rainflow, data)
    require("rainflow returns (cycles, residuals, positions)", len(out) == 3)
    check_rows(out[0], expected)
    close("residual sequence", out[1], residuals)
    rec.trace()
    require(
        "the signal is not altered",
        type(data) is list and data == before.tolist()
        or np.array_equal(np.asarray(data), before),
    )
    if full:
        check_rows(must(rainflow, data, extended_output=False), expected)
        tim = np.arange(len(ref)) * 0.5 + 3.0
        out = must(rainflow, data, time=tim)
        require("with time: four results", len(out) == 4)
        check_rows(out[0], expected)
        close("residual sequence (with time)", out[1], residuals)
        rec.trace(2)
        if expected:
            cc = must(CycleCount.from_timeseries, data, time=tim)
            close("count ranges", cc.stress_range, [r for r, _, _ in expected])
            close("count means", cc.mean_stress, [m for _, m, _ in expected])
            close("count weights", cc.count_cycle, [w for _, _, w in expected])
            close("count residuals", cc.residuals_sequence, residuals)
            rec.trace()
    rec.outcome(
        f"{sum(w == 1 for *_, w in cycles):02d} full"
        if len(ref) < 30
        else "long signal"
    )


DTYPES = [
    "list-int", "list-float", "float64", "float32", "float16", "int8",
    "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
    "strided", "readonly", "bigendian",
]  # fmt: skip


def build(kind: str, word):
    if kind == "list-int":
        return [int(v) for v in word]
    if kind == "list-float":
        return [float(v) for v in word]
    if kind == "strided":
        buf = np.full(3 * len(word), 99.0)
        buf[1::3] = word
        return buf[1::3]
    if kind == "readonly":
        a = np.array(word, dtype=float)
        a.flags.writeable = False
        return a
    if kind == "bigendian":
        return np.array(word, dtype=">f8")
    return np.array(word, dtype=kind)


def limits(kind: str):
    """Alphabets at the edges of a type's value range (exact in float64)."""
    if kind in ("list-int", "int64"):
        return [(-(2**40), 0, 2**40)]
    if kind in ("list-float", "float64", "strided", "readonly", "bigendian"):
        return [(-(2.0**40), 0.5, 2.0**40), (0.0, 2.0**-40, 2.0**-30),
                (-(2.0**60), 0.0, 2.0**61), (-(2.0**400), 0.0, 2.0**401),
                (0.0, 2.0**-60, -(2.0**-59)), (2.0**-300, 0.0, -(2.0**-299)),
                (1.0, 1.0 + 2.0**-40, 1.0 - 2.0**-40)]  # fmt: skip
    if kind == "float32":
        return [(-(2.0**20), 0.5, 2.0**20), (0.0, 2.0**-20, 2.0**-12)]
    if kind == "float16":
        return [(-30000.0, 0.0, 30000.0)]
    info = np.iinfo(kind)
    hi, lo = int(min(info.max, 2**40)), int(max(info.min, -(2**40)))
    return [(lo, (lo + hi) // 2, hi), (lo, lo + 1, hi), (hi - 1, hi, lo)]


class Check:
    ID = "C01"
    ASSUMPTIONS = [
        "signal values are dyadic, so ranges tie exactly or differ clearly",
    ]
    MIN_OUTCOMES = {"00 full": 100, "01 full": 100, "02 full": 100, "long signal": 20}

    def bound(self, tier: str) -> str:
        q = tier == "quick"
        return (
            f"all signals over 5 levels up to length {7 if q else 8}, 3 levels up"
            f" to {10 if q else 12}, 2 levels up to {13 if q else 16}; all"
            f" orderings of {8 if q else 9} equally and Sidon-spaced levels;"
            " all 4-level signals up to length 5 and all 3-level signals at the"
            " limits of each of 16 containers/types up to length 6; de Bruijn"
            " signals, trends and repetitions up to 140000 samples"
        )

    def tasks(self, tier: str):
        q = tier == "quick"
        for n in range(1, 8 if q else 9):
            if n < 6:
                yield ("words", 5, n, [])
            else:
                pre = [
                    list(p)
                    for p in itertools.product(range(5), repeat=n - 5)
                ]
                for p in pre:
                    yield ("words", 5, n, p)
        for n in range(8, 11 if q else 13):
            for p in itertools.product(range(3), repeat=max(0, n - 8)):
                yield ("words", 3, n, list(p))
        for n in range(8, 14 if q else 17):
            yield ("words", 2, n, [])
        for spaced in ("equal", "sidon"):
            m = 8 if (q or spaced == "sidon") else 9
            for first in itertools.permutations(range(m), 1):
                yield ("perms", spaced, m, list(first))
        for kind in DTYPES:
            yield ("types", kind)
        for k, n in [
            (2, 8), (3, 5), (4, 4), (5, 4), (6, 3), (8, 3), (16, 2), (33, 2), (4, 6),
        ]:  # fmt: skip
            yield ("bruijn", k, n)
        for reps in (2, 3, 10, 100, 257, 1000, 2500):
            yield ("repeat", reps)
        yield ("trends",)
        for n in (33000, 66000, 140000):
            yield ("huge", n)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def words(self, rec, k, n, prefix):
        for tail in itertools.product(range(k), repeat=n - len(prefix)):
            w = (*prefix, *tail)
            with rec.case(w):
                check_signal(rec, np.array(w, float), w, full=n <= 5)

    def perms(self, rec, spaced, m, first):
        lev = SIDON if spaced == "sidon" else list(range(m))
        rest = [i for i in range(m) if i not in first]
        for p in itertools.permutations(rest):
            w = [lev[i] for i in (*first, *p)]
            with rec.case(w):
                check_signal(rec, np.array(w, float), w, full=False)

    def types(self, rec, kind):
        for w in words(range(4), 1, 5):
            with rec.case(kind, w):
                check_signal(rec, build(kind, w), w)
        for alpha in limits(kind):
            for w in words(alpha, 2, 6):
                with rec.case(kind, w):
                    check_signal(rec, build(kind, w), w, full=len(w) < 5)

    def bruijn(self, rec, k, n):
        base = de_bruijn(k, n)
        for scale, off in [(1, 0), (0.25, -3), (-2, 1), (2.0**-20, 0), (2.0**20, 5)]:
            for rot in (0, len(base) // 3, len(base) // 2 + 1):
                w = [scale * v + off for v in base[rot:] + base[:rot]]
                with rec.case("de Bruijn", k, n, scale, off, rot):
                    check_signal(rec, np.array(w), w)
                with rec.case("de Bruijn list", k, n, scale, off, rot):
                    check_signal(rec, list(map(float, w)), w, full=False)

    def repeat(self, rec, reps):
        for pat in words(range(3), 2, 4):
            if max(pat) == min(pat):
                continue
            for lead, tail in (((), ()), ((5,), ()), ((), (7, -7)), ((9, -9), (4,))):
                w = [*lead, *(pat * reps), *tail]
                if len(w) > 10000 and pat[0] != 0:
                    continue
                with rec.case("repeat", pat, reps, lead, tail):
                    check_signal(rec, np.array(w, float), w, full=False)

    def trends(self, rec):
        """Growing, shrinking, drifting oscillations: deep stacks, many halves."""
        for n in (3, 10, 63, 64, 65, 255, 257, 1000, 1001, 4096, 5000):
            fams = {
                "grow": [(-1) ** i * i for i in range(n)],
                "shrink": [(-1) ** i * (n - i) for i in range(n)],
                "spindle": [(-1) ** i * min(i, n - i) for i in range(n)],
                "waist": [(-1) ** i * (n - min(i, n - i)) for i in range(n)],
                "drift": [i + 4 * (i % 2) for i in range(n)],
                "ramp": list(range(n)),
                "flat": [3] * n,
                "flat-step": [3] * n + [4] * n,
                "flat-hat": [0] * n + [1] * n + [0] * n,
                "saw": [i % 7 for i in range(n)],
                "quad": [(i * i) % 31 for i in range(n)],
                "cube": [(i * i * i) % 101 for i in range(n)],
            }
            for name, w in fams.items():
                with rec.case(name, n):
                    check_signal(rec, np.array(w, float), w, full=n <= 65)
                with rec.case(name, n, "int list"):
                    check_signal(rec, [int(v) for v in w], w, full=False)

    def huge(self, rec, n):
        """More samples, stacked reversals and cycles than small integers hold."""
        fams = {
            "grow": [(-1) ** i * i for i in range(n)],
            "shrink": [(-1) ** i * (n - i) for i in range(n)],
            "drift": [i + 4 * (i % 2) for i in range(n)],
            "late": [i % 2 for i in range(n)] + [9, -9, 9, 5, 7, 5, 9],
            "flat": [0, 5, 0] + [1] * n + [6, 2, 4, 2, 8],
            "cube": [(i * i * i) % 101 for i in range(n)],
        }
        for name, w in fams.items():
            with rec.case(name, n):
                check_signal(rec, np.array(w, float), w, full=name in ("late", "flat"))

    def reject(self, rec):
        nan = float("nan")
        for w in words((0.0, 1.0, 2.0), 2, 5):
            for i in range(len(w)):
                bad = [*w[:i], nan, *w[i + 1 :]]
                with rec.case("nan", bad):
                    rejects("NaN in the signal", rainflow, np.array(bad))
                    rejects("NaN in the signal", rainflow, list(bad))
                    rec.trace(2)
                    rec.step()
            with rec.case("length", w):
                for d in (-1, 1):
                    for mk in (list, np.array):
                        rejects(
                            "time of another length", rainflow, np.array(w),
                            time=mk(np.arange(len(w) + d, dtype=float)),
                        )  # fmt: skip
                rec.trace(4)
                rec.step()
        for bad in ((0, 1, 0, 2), "0102", None, 5, 2.5, {0: 1}, {1, 2}, iter([1, 2])):
            with rec.case("type", repr(type(bad))):
                rejects("unsupported signal type", rainflow, bad)
                if bad is not None:
                    rejects(
                        "unsupported time type", rainflow,
                        np.array([0.0, 1.0, 0.0, 2.0]), time=bad,
                    )  # fmt: skip
                rec.trace()
                rec.step()


CHECK = Check()
