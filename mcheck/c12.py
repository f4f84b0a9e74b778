"""C12: Paris law and its inverse on every bounded curve."""
from __future__ import annotations

import itertools

import numba
import numpy as np

from mcheck.core import Rec, arr, close, must, rejects, require
from mcheck.curves import growth, intensity, paris, paris_from_knees, paris_knees

SLOPES = (1.0, 2.0, 3.0, 3.5, 5.0)
KNEES = (16.0, 40.0, 64.0, 200.0, 700.0)
COEFF = (1e-9, 2.0**-40)
THRESHOLDS = (0.0, 2.0, 20.0, 63.0, 300.0)
CRITICALS = (np.inf, 5000.0, 220.0, 65.0, 30.0)


def curves():
    for s, c in itertools.product(SLOPES, COEFF):
        yield (s,), (c,)
    for nseg in (2, 3, 4):
        slopes = [
            p for p in itertools.product(SLOPES, repeat=nseg)
            if all(a != b for a, b in zip(p, p[1:]))
        ]  # fmt: skip
        if nseg > 2:
            slopes = slopes[:: 3 if nseg == 3 else 11]
        for k in itertools.permutations(KNEES, nseg - 1):
            if nseg == 4 and list(k) != sorted(k):
                continue
            for s in slopes:
                yield paris_from_knees(k, s, 1e-9)


class Check:
    ID = "C12"
    ASSUMPTIONS = [
        "intensities and rates within 1e-8 (relative) of threshold, critical or"
        " knee are compared with that tolerance only",
    ]
    MIN_OUTCOMES = {"valid": 500, "refused": 500, "threshold": 200, "critical": 200}

    def bound(self, tier):
        return (
            f"all one- and two-segment and a third of three-segment curves over"
            f" {len(SLOPES)} slopes and all ordered and unordered choices of {len(KNEES)}"
            " knees, ordered four-segment curves; up to eight segments with neighbouring"
            " knees exchanged, knees 1e-4-1e6 and coefficients 1e-30-1e3;"
            f" {len(THRESHOLDS)} thresholds x {len(CRITICALS)} critical values"
            f" ({'every third combination' if tier == 'quick' else 'all'});"
            " up to 70000 values at once; both sides of every knee, threshold and critical value; negative values"
            " at every position"
        )

    def tasks(self, tier):
        for i in range(24):
            yield ("laws", i, 24, 3 if tier == "quick" else 1)
        for i in range(6):
            yield ("wide", i, 6)
        yield ("long",)
        yield ("reject",)

    def run(self, rec: Rec, kind, *a):
        numba.set_num_threads(1)
        getattr(self, kind)(rec, *a)

    def laws(self, rec, i, n, step):
        for q, (m, c) in enumerate(itertools.islice(curves(), i, None, n)):
            for t, k in list(itertools.product(THRESHOLDS, CRITICALS))[q % step :: step]:
                self._one(rec, m, c, t, k)

    def wide(self, rec, i, n):
        """Five to eight segments, one pair of knees exchanged, extreme values."""
        cs = []
        slopes = (1.0, 2.5, 3.0, 5.0, 2.0, 4.0, 7.0, 3.5)
        for size in (5, 6, 7, 8):
            knees = [10.0, 16.0, 40.0, 64.0, 200.0, 700.0, 900.0][: size - 1]
            cs.append(paris_from_knees(knees, slopes[:size], 1e-11))
            for j in range(size - 2):
                bad = list(knees)
                bad[j], bad[j + 1] = bad[j + 1], bad[j]
                cs.append(paris_from_knees(bad, slopes[:size], 1e-11))
        for mc in itertools.islice(cs, i, None, n):
            for t, k in itertools.product((0.0, 5.0, 50.0, 650.0, 1000.0), (np.inf, 2e3, 800.0, 100.0)):
                if t < k:
                    self._one(rec, *mc, t, k)
        one = itertools.product((0.25, 1.0, 3.0, 12.0), (1e-30, 1e-14, 1e-3, 1e3))
        for m, c in itertools.islice(one, i, None, n):
            for t, k in itertools.product((0.0, 1e-6, 5.0, 1e5), (np.inf, 1e9, 1e-3)):
                if t < k:
                    self._one(rec, (m,), (c,), t, k)
        two = itertools.product((1e-4, 1.0, 1e6), (0.5, 3.0), (1.0, 8.0), (1e-30, 1e-12, 1.0))
        for v, m, m2, c in itertools.islice(two, i, None, n):
            for t, k in itertools.product((0.0, 1e-6, 1e3), (np.inf, 1e8)):
                self._one(rec, *paris_from_knees((v,), (m, m2), c), t, k)

    def long(self, rec):
        """Many intensities and many rates at once."""
        for n, knees, (t, k) in itertools.product(
            (129, 1000, 4097, 70000), ((), (40.0,), (10.0, 64.0, 200.0)),
            ((0.0, np.inf), (5.0, np.inf), (0.0, 300.0), (5.0, 300.0)),
        ):  # fmt: skip
            m, c = paris_from_knees(knees, (2.0, 5.0, 3.0, 4.0)[: len(knees) + 1], 1e-11)
            with rec.case("long", n, knees, t, k):
                p = must(paris, list(m), np.array(c), t, k)
                x = np.array([(1 + j * 37 % 1009) / 2.3 for j in range(n)])
                v = np.array([10.0 ** (j * 37 % 1009 / 84 - 14) for j in range(n)])
                for way in (slice(None), slice(None, None, -1)):
                    close("growth rates", must(p.get_growth_rate, x[way]),
                          growth(x[way], m, c, t, k), rtol=1e-8, atol=0.0)  # fmt: skip
                    close("intensities", must(p.get_sif, v[way]), intensity(v[way], m, c, t, k),
                          rtol=1e-8, atol=0.0)  # fmt: skip
                rec.state(("long", n, knees, t, k))
                rec.step(4 * n)
                rec.trace(4)

    def _one(self, rec, m, c, t, k):
        knees = paris_knees(m, c)
        pts = [t] + knees + [k]
        valid = all(a < b for a, b in zip(pts, pts[1:]))
        if any(abs(a / b - 1) < 1e-6 for a, b in zip(pts, pts[1:]) if b < np.inf and b > 0):
            return
        with rec.case(m, c, t, k):
            p = must(paris, list(m), np.array(c), t, k)
            rec.step()
            rec.state((m, c, t, k))
            if not valid:
                for x in (1.0, 50.0, 1e5):
                    rejects("knees out of order", p.get_growth_rate, np.array([x]))
                    rejects("knees out of order", p.get_sif, np.array([1e-9]))
                rec.trace(2)
                rec.outcome("refused")
                return
            close("knee intensities", must(p.get_knee_sif), knees, atol=0.0)
            close("knee rates", must(p.get_knee_growth_rate),
                  [c[j] * x ** m[j] for j, x in enumerate(knees)], rtol=1e-8, atol=0.0)  # fmt: skip
            x = [2.0**j for j in range(-20, 24)]
            for v in knees + [t] * (t > 0) + [k] * (k < np.inf):
                x += [v * 0.5, v * (1 - 1e-6), v * (1 + 1e-6), v * 1.5]
            if t > 0:
                x.append(t)
            if k < np.inf:
                x.append(k)
            x = np.array(sorted(x))
            got = arr(must(p.get_growth_rate, x))
            close("growth rates", got, growth(x, m, c, t, k), atol=0.0)
            require("growth rate decreases", np.all(got[1:] >= got[:-1] * (1 - 1e-9)))
            # at the knees themselves both neighbouring laws agree
            close("growth at knees", must(p.get_growth_rate, np.array(knees + [max(t, 1e-3)])),
                  growth(np.array(knees + [max(t, 1e-3)]), m, c, t, k), rtol=1e-8, atol=0.0)  # fmt: skip
            inside = (x >= t) & (x <= k)
            back = must(p.get_sif, got[inside])
            close("intensity undone", back, x[inside], rtol=1e-8, atol=0.0)
            rates = np.array([10.0**e for e in range(-40, 6)])
            close("intensities", must(p.get_sif, rates), intensity(rates, m, c, t, k), rtol=1e-8,
                  atol=0.0)  # fmt: skip
            rt = float(growth(t, m, c, 0.0)) if t > 0 else 0.0
            if t > 0:
                close("below threshold", must(p.get_sif, [rt / 2, rt / 1e6, 0.0]), [t, t, t])
                require("no growth below threshold",
                        must(p.get_growth_rate, t * (1 - 1e-6)) == 0)  # fmt: skip
                close("threshold rate", must(lambda: p.threshold_growth_rate), rt, rtol=1e-8, atol=0.0)
                rec.outcome("threshold")
            else:
                close("no growth", must(p.get_growth_rate, 0.0), 0.0)
                close("no intensity", must(p.get_sif, 0.0), 0.0)
            if k < np.inf:
                rk = float(growth(k, m, c))
                close("above critical", must(p.get_sif, [rk * 2, rk * 1e9, np.inf]), [k] * 3)
                require("unstable growth above critical",
                        must(p.get_growth_rate, k * (1 + 1e-6)) == np.inf)  # fmt: skip
                close("critical rate", must(lambda: p.critical_growth_rate), rk, rtol=1e-8, atol=0.0)
                rec.outcome("critical")
            if knees:
                close("checked", must(p.get_knee_sif, knees), knees)
                must(p.get_knee_growth_rate, knees)
                for j, f in itertools.product(range(len(knees)), (0.5, 2.0)):
                    bad = list(knees)
                    bad[j] *= f
                    rejects("wrong knee", p.get_knee_sif, bad)
                for j, d in itertools.product(range(len(knees)), range(2, 10)):
                    near, far = list(knees), list(knees)
                    near[j] *= 1 + 0.1 * 10.0**-d
                    far[j] *= 1 + 3 * 10.0 ** (1 - d)
                    must(p.get_knee_sif, near, d)
                    rejects("wrong knee", p.get_knee_sif, far, d)
                for j in range(1, len(knees)):
                    bad = list(knees)
                    bad[j - 1], bad[j] = bad[j], bad[j - 1]
                    if knees[j] > 2 * knees[j - 1]:
                        rejects("knees swapped", p.get_knee_sif, bad)
                for bad in (knees[:-1], knees + [1e3]):
                    rejects("number of knees", p.get_knee_sif, bad)
                    rejects("number of knees", p.get_knee_growth_rate, bad)
            else:
                rejects("no knee", p.get_knee_sif, [3.0])
                rejects("no knee", p.get_knee_growth_rate, [3.0])
            rec.step(len(x) * 2 + len(rates))
            rec.trace(len(x) * 2 + len(rates))
            rec.outcome("valid")

    def reject(self, rec):
        for m, c in (([3.0], [1e-9, 1e-8]), ([3.0, 5.0], [1e-9]), (3.0, [1e-9, 1e-8])):
            with rec.case(m, c):
                rejects("mismatched lengths", paris, m, c, kinds=ValueError)
                rec.outcome("refused")
                rec.trace()
        p = must(paris, [3.0], [1e-9], 10.0, 500.0)
        for n in (1, 3, 6):
            for pos, bad in itertools.product(range(n), (-1.0, -1e-6)):
                with rec.case(n, pos, bad):
                    x = np.full(n, 30.0)
                    x[pos] = bad
                    rejects("negative intensity", p.get_growth_rate, x)
                    rejects("negative rate", p.get_sif, x)
                    rec.outcome("refused")
                    rec.trace(2)
                    rec.step(2)
        for t, k in ((50.0, 50.0), (50.0, 10.0), (-1.0, 10.0)):
            with rec.case("limits", t, k):
                q = must(paris, [3.0], [1e-9], t, k)
                rejects("threshold not below critical", q.get_growth_rate, [20.0])
                rejects("threshold not below critical", q.get_sif, [1e-6])
                rec.outcome("refused")
                rec.trace(2)


CHECK = Check()
