"""C22: level crossings, extrema and turning points against a one-pass model."""
from __future__ import annotations

import itertools

import numpy as np
from py_fatigue.cycle_count.rainflow import findcross, findextrema, findtp

from mcheck.core import Rec, arr, chunks, must, rejects, require, same
from mcheck.model import de_bruijn, words

TYPES = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "float32", "float64")

SCALES = [(2.0**-50, 0.0), (2.0**-100, 0.0), (2.0**200, 0.0), (2.0**-50, 1.0), (2.0**-20, 2.0**30)]


def crossings(x, v):
    """[(position before the crossing, +1 up / -1 down)]"""
    side, out = 0, []
    for i, value in enumerate(x):
        s = (value > v) - (value < v)
        if s == 0 or s == side:
            continue
        if i > 0:
            out.append((i - 1, s))
        side = s
    return out


def extrema(x):
    d = [b - a for a, b in zip(x, x[1:])]
    return [i + 1 for i, _ in crossings(d, 0)]


def positions(what, got, exp):
    g = arr(got)
    require(f"{what}: not a vector of positions: {got!r}", g.ndim == 1)
    same(what, [float(i) for i in g], [float(i) for i in exp])
    require(f"{what}: not usable as indices", len(exp) == 0 or np.asarray(got).dtype.kind in "iu")


def check_level(rec, data, ref, v, kinds=True):
    exp = crossings(ref, v)
    rec.state((len(ref), tuple(exp)))
    rec.step(len(ref))
    positions("crossings", must(findcross, data, v), [i for i, _ in exp])
    if kinds:
        positions("up-crossings", must(findcross, data, v, "u"), [i for i, s in exp if s > 0])
        positions("down-crossings", must(findcross, data, v, "d"), [i for i, s in exp if s < 0])
        positions("all", must(findcross, data, v=v, kind=None), [i for i, _ in exp])
        rec.trace(3)
        if exp:
            rejects("unknown kind", findcross, data, v, "x")
            rejects("unknown kind", findcross, data, v, "")
    rec.trace()
    rec.outcome(f"{min(len(exp), 3)} crossings")


def check_turning(rec, data, ref):
    exp = extrema(ref)
    rec.state((len(ref), "e", tuple(exp)))
    rec.step(len(ref))
    positions("extrema", must(findextrema, data), exp)
    if len(ref) > 1:
        positions("turning points", must(findtp, data), [0] + exp + [len(ref) - 1])
    rec.trace(2)
    rec.outcome(f"{min(len(exp), 3)} extrema")


class Check:
    ID = "C22"
    ASSUMPTIONS = [
        "an unknown kind of crossing is only required to be refused when there is a crossing",
    ]
    MIN_OUTCOMES = {"3 crossings": 5000, "0 crossings": 100, "3 extrema": 5000}

    def n(self, tier):
        return (9, 7, 6) if tier == "quick" else (12, 8, 7)

    def bound(self, tier):
        a, b, c = self.n(tier)
        return (
            f"every signal over 3 levels up to length {a} at the middle level and between"
            f" levels; every signal over 5 levels up to length {b} for extrema and turning"
            f" points; every signal over 4 levels up to length {c} at every level and midpoint"
            " in every kind; every signal of length 4 at the ends of 9 numeric types, with"
            " integer and fractional levels, as list, tuple, array and column; de Bruijn"
            " signals holding every local pattern, and every word of length 4 repeated"
            " to 300, 5000 and 70000 samples; differences down to 2**-100 and up to 2**200"
        )

    def tasks(self, tier):
        a, b, c = self.n(tier)
        for k in range(8):
            yield ("signs", a, k)
            yield ("levels", c, k)
            yield ("turns", b, k)
        for t in TYPES:
            yield ("types", t)
        yield ("containers",)
        for i in range(len(SCALES)):
            yield ("scaled", i)
        for k in range(4):
            yield ("long", k)
        yield ("refused",)

    def run(self, rec: Rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def signs(self, rec, n, k):
        for x in chunks(words((-1.0, 0.0, 1.0), 1, n), 8)[k]:
            with rec.case("signs", x):
                data = np.array(x)
                check_level(rec, data, x, 0.0, kinds=len(x) <= 6)
                check_turning(rec, data, x)
                require("the signal is not altered", data.tolist() == list(x))

    def levels(self, rec, n, k):
        for x in chunks(words((0.0, 1.0, 2.0, 3.0), 1, n), 8)[k]:
            with rec.case("levels", x):
                data = np.array(x)
                for v in (-0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5):
                    check_level(rec, data, x, v)
                check_level(rec, list(x), x, 1)

    def turns(self, rec, n, k):
        for x in chunks(words((-3.0, -1.0, 0.0, 0.5, 4.0), 1, n), 8)[k]:
            with rec.case("turns", x):
                check_turning(rec, np.array(x), x)

    def types(self, rec, t):
        dt = np.dtype(t)
        if dt.kind == "f":
            vals, levels = (-1e30, -1.0, 0.25, 1e30), (0, 0.25, 1e30, -1.0)
        else:
            lo, hi = int(np.iinfo(dt).min), int(np.iinfo(dt).max)
            if dt.itemsize == 8:  # stay exactly representable
                lo, hi = -(2**52), 2**52
            mid = (lo + hi) // 2
            vals = (lo, mid, mid + 1, hi)
            levels = (lo, mid, mid + 1, hi, mid + 0.5, 0, 3, hi - 0.5)
        vals = [dt.type(v) for v in vals]
        for x in words(vals, 1, 4):
            ref = [v.item() for v in x]
            data = np.array(x, dtype=dt)
            with rec.case(t, ref):
                for v in levels:
                    check_level(rec, data, ref, v, kinds=len(x) < 4)
                check_turning(rec, data, ref)

    def scaled(self, rec, i):
        """Steps that are tiny or huge, alone or on top of a large level."""
        f, o = SCALES[i]
        for w in words((-1.0, 0.0, 1.0), 2, 5):
            x = [f * v + o for v in w]
            with rec.case("scaled", f, o, w):
                for v in (o, o + f, o - f):
                    check_level(rec, np.array(x), x, v, kinds=len(x) < 5)
                check_turning(rec, np.array(x), x)

    def containers(self, rec):
        for x in words((0, 1, 3), 1, 5):
            for name, data in (
                ("list", list(x)),
                ("tuple", tuple(x)),
                ("column", np.array(x, float)[:, None]),
                ("strided", np.repeat(np.array(x, float), 2)[::2]),
                ("reversed", np.array(x[::-1], float)[::-1]),
            ):
                with rec.case(name, x):
                    for v in (0, 1, 1.5):
                        check_level(rec, data, x, v, kinds=False)
                    check_turning(rec, data, x)

    def long(self, rec, k):
        jobs = [("db", 3, 7), ("db", 5, 5)]
        jobs += [("rep", w, m) for w in words((-1, 0, 1), 4, 4) for m in (300, 5000)]
        jobs += [("rep", w, 70000) for w in ((0, 1, 0, -1), (1, 1, -1, -1), (0, 0, 1, 1))]
        for j in jobs[k::4]:
            if j[0] == "db":
                x = [float(v) - (j[1] - 1) / 2 for v in de_bruijn(j[1], j[2])]
            else:
                x = [float(v) for v in (j[1] * (j[2] // 4 + 1))[: j[2]]]
            with rec.case(*j):
                check_level(rec, np.array(x), x, 0.0)
                check_level(rec, np.array(x), x, 0.5)
                check_turning(rec, np.array(x), x)

    def refused(self, rec):
        for n in range(1, 6):
            for i in range(n):
                for base in itertools.product((0.0, 1.0), repeat=n):
                    x = list(base)
                    x[i] = float("nan")
                    with rec.case("nan", x):
                        rejects("NaN", findcross, np.array(x), 0.5)
                        rejects("NaN", findcross, x, 0.0)
                        if n > 1:
                            rejects("NaN", findtp, np.array(x))
                            rejects("NaN", findextrema, np.array(x))
                        rec.step(4)
                        rec.trace(4)
        with rec.case("empty"):
            positions("empty signal", must(findcross, [], 0.0), [])
            positions("empty signal", must(findextrema, np.array([])), [])
            positions("single sample", must(findextrema, np.array([2.0])), [])


CHECK = Check()
