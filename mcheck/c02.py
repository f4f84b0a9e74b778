"""C02: counting ignores sampling, offset, sign, scale and locates cycles."""
from __future__ import annotations

import itertools

import numpy as np
from py_fatigue.cycle_count.rainflow import findrfc_astm, findtp, rainflow

from mcheck.core import Mismatch, Rec, arr, close, must, require
from mcheck.model import astm, de_bruijn, table, words


def rows3(rows) -> np.ndarray:
    """Table as [range, mean, weight]."""
    out = arr(rows)[:, :3].copy()
    out[:, 0] *= 2
    return out


def check_positions(data, rows, pos, what) -> None:
    """Start and start + period/2 must be the two extremes of each cycle."""
    rows = arr(rows)
    require(f"{what}: five columns", rows.ndim == 2 and rows.shape[1] == 5)
    if not len(rows):
        return
    pos = np.asarray(pos, float)
    lookup = {p: v for p, v in zip(pos.tolist(), np.asarray(data, float).tolist())}
    for ampl, mean, _w, begin, period in rows.tolist():
        if period <= 0:
            raise Mismatch(f"{what}: period {period} of cycle at {begin}")
        ends = (begin, begin + period / 2)
        for e in ends:
            if e not in lookup:
                raise Mismatch(f"{what}: position {e} is not a sample position")
        vals = sorted(lookup[e] for e in ends)
        if abs(vals[0] - (mean - ampl)) > 1e-9 * (1 + abs(vals[0])) or abs(
            vals[1] - (mean + ampl)
        ) > 1e-9 * (1 + abs(vals[1])):
            raise Mismatch(
                f"{what}: samples {vals} at {ends} are not the extremes of the "
                f"cycle (mean {mean}, amplitude {ampl})"
            )


def check_located(rec: Rec, x, times=None) -> None:
    """Positions in the table, residual positions and residual times."""
    n = len(x)
    expected = table(astm(list(x))[0])
    rows, res, idx = must(rainflow, x)
    check_positions(x, rows, np.arange(n), "rainflow")
    idx = np.asarray(idx)
    require("residual positions are integers", idx.dtype.kind in "iu")
    require("residual positions increase", (np.diff(idx) > 0).all())
    require("last residual is the last sample", idx[-1] == n - 1)
    close("residuals at their positions", np.asarray(x, float)[idx], res)
    rec.trace()
    tp = must(findtp, np.asarray(x))
    if len(tp):
        close(
            "cycles without positions",
            rows3(must(findrfc_astm, np.asarray(x)[tp])),
            np.array(expected).reshape(-1, 3),
        )
    for t in times or ():
        out = must(rainflow, x, time=t)
        close("table does not depend on time argument", out[0], rows)
        close("residual times", out[3], np.asarray(t, float)[np.asarray(out[2])])
        close("residual positions", out[2], idx)
        if len(tp):
            tt = np.asarray(t, float)
            rt = must(findrfc_astm, np.asarray(x)[tp], tt[tp])
            check_positions(x, rt, tt, "time of cycles")
            close("cycles with times", rows3(rt), np.array(expected).reshape(-1, 3))
        rec.trace()
    rec.state(tuple(np.asarray(x, float).tolist()) if n < 40 else (n, float(np.sum(x))))


def refine(word, choice) -> list:
    """Insert samples that make no new reversal; choice has one code per gap."""
    out = []
    lead, *gaps, tail = choice
    out += [word[0]] * lead
    for a, b, c in zip(word, word[1:], gaps):
        out.append(a)
        if c == 1:
            out.append(a)
        elif c == 2:
            out.append((a + b) / 2)
        elif c == 3:
            out += [a, (3 * a + b) / 4, (a + b) / 2, (a + b) / 2, b]
    out.append(word[-1])
    out += [word[-1]] * tail
    return [float(v) for v in out]


def time_axes(n):
    return [
        np.arange(n) * 0.25,
        (np.arange(n, dtype=float) ** 2 + np.arange(n)) / 2 - 7,
        [10.0 + 3 * i + (i % 3) for i in range(n)],
        [0.375 * i - 1.5 for i in range(n)],
        2.0**31 + np.arange(n) / 64,
        np.arange(n) * 2.0**-30,
        np.arange(n, dtype=np.int64) * 3 + 2**33,
        [i if i % 3 == 0 else i + 0.25 for i in range(n)],
    ]


class Check:
    ID = "C02"
    ASSUMPTIONS = ["signal values and factors are dyadic, so ties stay exact"]
    MIN_OUTCOMES = {"refined": 1000, "affine": 1000, "located": 1000}

    def bound(self, tier):
        q = tier == "quick"
        return (
            f"all 4-level signals of length 2..{4 if q else 5} with every choice of"
            " four sampling refinements per gap and leading/trailing plateaus;"
            f" all 4-level signals up to length {6 if q else 7} under 14 affine maps and"
            " eight time axes; de Bruijn signals refined up to 70000 samples"
        )

    def tasks(self, tier):
        q = tier == "quick"
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            for p in itertools.product(range(4), repeat=n - 2):
                yield ("refined", n, list(p))
        for n in range(2, 7 if q else 8):
            for p in itertools.product(range(4), repeat=max(0, n - 4)):
                yield ("affine", n, list(p))
                yield ("located", n, list(p))
        for k, n in ((2, 6), (3, 4), (4, 3), (6, 2), (9, 2), (4, 5), (30, 2)):
            yield ("long", k, n)
        for n in (33000, 70000):
            yield ("huge", n)

    def run(self, rec, kind, *a):
        getattr(self, kind)(rec, *a)

    def refined(self, rec, n, prefix):
        for tail in itertools.product(range(4), repeat=n - len(prefix)):
            w = (*prefix, *tail)
            with rec.case(w):
                base = must(rainflow, np.array(w, float))
                b3 = rows3(base[0])
                rec.state(w)
            for lead, end in ((0, 0), (1, 0), (0, 1), (2, 3)):
                for gaps in itertools.product(range(4), repeat=n - 1):
                    ch = (lead, *gaps, end)
                    x = refine(w, ch)
                    with rec.case(w, ch):
                        out = must(rainflow, np.array(x))
                        close("cycles after refinement", rows3(out[0]), b3)
                        close("residuals after refinement", out[1], base[1])
                        check_positions(x, out[0], np.arange(len(x)), "refined")
                        rec.step()
                        rec.trace()
                        rec.outcome("refined")

    def affine(self, rec, n, prefix):
        maps = [
            (1, 0.5), (1, -100), (1, 2.0**20), (-1, 0), (2, 0), (0.5, 0), (3, 1),
            (-3, 7), (2.0**20, 0), (2.0**-20, 0), (-(2.0**-10), 4),
            (2.0**80, 0), (-(2.0**-80), 0), (2.0**-30, 1),
        ]  # fmt: skip
        for tail in itertools.product(range(4), repeat=n - len(prefix)):
            w = (*prefix, *tail)
            x = np.array(w, float)
            with rec.case(w):
                base = must(rainflow, x)
                b3 = rows3(base[0])
                rec.state(w)
                for f, o in maps:
                    out = must(rainflow, f * x + o)
                    e = b3.copy()
                    e[:, 0] *= abs(f)
                    e[:, 1] = e[:, 1] * f + o
                    close(f"cycles of {f}*x+{o}", rows3(out[0]), e)
                    close(f"positions of {f}*x+{o}", out[0][:, 3:], base[0][:, 3:])
                    close(f"residuals of {f}*x+{o}", out[1], f * arr(base[1]) + o)
                    rec.step()
                    rec.trace()
                    rec.outcome("affine")

    def located(self, rec, n, prefix):
        for tail in itertools.product(range(4), repeat=n - len(prefix)):
            w = (*prefix, *tail)
            with rec.case(w):
                check_located(rec, np.array(w, float), time_axes(n))
                check_located(rec, list(w))
                rec.step()
                rec.outcome("located")

    def long(self, rec, k, n):
        base = de_bruijn(k, n)
        for scale in (1.0, -0.5):
            w = [scale * v for v in base]
            b = must(rainflow, np.array(w))
            b3 = rows3(b[0])
            for rep in (1, 2, 3, 7):
                x = np.repeat(np.array(w), rep)
                with rec.case("repeat", k, n, rep):
                    out = must(rainflow, x)
                    close("cycles after holding", rows3(out[0]), b3)
                    close("residuals after holding", out[1], b[1])
                    check_located(rec, x, time_axes(len(x)))
                    rec.step()
            for sub in (2, 4, 8):
                m = len(w)
                x = np.interp(np.arange((m - 1) * sub + 1) / sub, np.arange(m), w)
                with rec.case("interpolate", k, n, sub):
                    out = must(rainflow, x)
                    close("cycles after interpolation", rows3(out[0]), b3)
                    close("residuals after interpolation", out[1], b[1])
                    check_located(rec, x, time_axes(len(x))[:2])
                    rec.step()
            for off in (2.0**16, -1000.5):
                with rec.case("offset", k, n, off):
                    out = must(rainflow, np.array(w) + off)
                    e = b3.copy()
                    e[:, 1] += off
                    close("cycles with offset", rows3(out[0]), e)
                    rec.step()
                    rec.trace()

    def huge(self, rec, n):
        """Positions beyond the range of small integers."""
        for name, w in {
            "flat": [0, 5, 0] + [1] * n + [6, 2, 4, 2, 8],
            "saw": [(i * 7) % 11 for i in range(n)],
            "shrink": [(-1) ** i * (n - i) for i in range(n)],
        }.items():
            with rec.case("huge", name, n):
                x = np.array(w, float)
                check_located(rec, x, time_axes(len(x))[2:5])
                rec.step()


CHECK = Check()
